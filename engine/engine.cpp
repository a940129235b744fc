// Symbolic executor for LLVM 18 bitcode.
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace llvm;

// ============================ globals ========================================
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<FnInfo*> fns;
static std::unordered_map<const Function*, FnInfo*> fnMap;
static std::unordered_map<std::string, FnInfo*> fnByName;
static std::unordered_map<const GlobalVariable*, u64> gAddr;
static std::map<u32, std::vector<u8>> gTlsInit;        // initial content of thread local variables
static u64 siVtable = 0, vmiVtable = 0, clsVtable = 0;
static const u32 FNOBJ = 1;
static std::vector<State*> work;

struct Shared { volatile int active, procs, stop; volatile long violations; volatile double firstViol; long paths; u64 instrs; int nfile; };
static Shared* sh;
static int maxActive = 8;
static double deadline = 0, startTime = 0;
static u64 maxSteps = 200000000ull;
static std::string outPrefix;
static FILE* out;
static int preemptBound = 3;
static bool coverOnly = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static u64 nPaths = 0, nInstr = 0, nForks = 0, nErr = 0, nInfeasible = 0, nBranches = 0, nSymBranches = 0, nChecks = 0, nSwitches = 0;
static std::map<std::string, unsigned> emittedOf;
static std::set<std::string> coverSeen, coverWanted, incompleteMsgs;
static std::set<std::string> seenViol;
static std::vector<std::string> coverNames; static std::map<std::string, u32> coverIds;

struct PathEnd {};

// ============================ memory =========================================
Obj deadStack, deadHeap;
static Obj* newObj(u32 size, ObjKind k, const char* name, bool undef) {
    char* p = (char*)malloc(sizeof(Obj) + 2 * (size_t)size + 16);
    Obj* o = (Obj*)p;
    o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->name = name; o->sym = nullptr; o->tid = 0; o->initOwned = false;
    o->data = (u8*)(p + sizeof(Obj)); o->st = o->data + size + 8;
    memset(o->data, 0, size); memset(o->st, undef ? 2 : 0, size);
    return o;
}
static void unrefObj(Obj* o) {
    if (!o || o == &deadStack || o == &deadHeap) return;
    if (--o->rc == 0) { if (o->sym) free(o->sym); free(o); }
}
static Obj* cloneObj(Obj* s) {
    Obj* o = newObj(s->size, s->kind, s->name, false);
    o->ro = s->ro; o->tid = s->tid; o->initOwned = s->initOwned;
    memcpy(o->data, s->data, s->size); memcpy(o->st, s->st, s->size);
    if (s->sym) { o->sym = (Expr**)malloc(sizeof(Expr*) * (s->size ? s->size : 1)); memcpy(o->sym, s->sym, sizeof(Expr*) * s->size); }
    return o;
}
static void unrefChunk(Chunk* c) {
    if (--c->rc == 0) { for (Obj* o : c->o) unrefObj(o); free(c); }
}
Mem::Mem(const Mem& m) : chunks(m.chunks), next(m.next) { for (Chunk* c : chunks) c->rc++; }
Mem::~Mem() { for (Chunk* c : chunks) unrefChunk(c); }
static Chunk* ownChunk(Mem& m, u32 ci) {
    Chunk* c = m.chunks[ci];
    if (c->rc > 1) {
        Chunk* n = (Chunk*)malloc(sizeof(Chunk));
        memcpy((void*)n, c, sizeof(Chunk)); n->rc = 1;
        for (Obj* o : n->o) if (o && o != &deadStack && o != &deadHeap) o->rc++;
        c->rc--; m.chunks[ci] = c = n;
    }
    return c;
}
u32 Mem::alloc(u32 size, ObjKind k, const char* name, bool undef) {
    u32 id = next++;
    if ((id >> 8) >= chunks.size()) { Chunk* c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; chunks.push_back(c); }
    ownChunk(*this, id >> 8)->o[id & 255] = newObj(size, k, name, undef);
    return id;
}
Obj* Mem::writable(u32 id) {
    Chunk* c = ownChunk(*this, id >> 8);
    Obj*& o = c->o[id & 255];
    if (o->rc > 1) { Obj* n = cloneObj(o); o->rc--; o = n; }
    return o;
}
void Mem::kill(u32 id, Obj* tomb) {
    Chunk* c = ownChunk(*this, id >> 8);
    unrefObj(c->o[id & 255]);
    c->o[id & 255] = tomb;
}

// ============================ reporting ======================================
static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void emit(const std::string& line) { fputs(line.c_str(), out); fputc('\n', out); fflush(out); }

static std::string inputsJson(State& S, const Model& m) {
    std::string r = "[";
    for (size_t i = 0; i < S.inputs.size(); i++) {
        auto& in = S.inputs[i];
        if (i) r += ",";
        r += "{\"n\":\"" + jesc(in.name) + "\",\"k\":\"" + in.kind + "\",\"v\":\"";
        if (in.kind == 'b') {
            char b[4];
            for (Expr* e : in.e) { snprintf(b, sizeof b, "%02x", (unsigned)evalExpr(e, m)); r += b; }
        } else if (in.kind == 'i') r += std::to_string(evalExpr(in.e[0], m));
        else r += std::to_string(in.v);
        r += "\"}";
    }
    return r + "]";
}
static std::string obsJson(State& S, const Model& m) {
    std::string r = "[";
    for (size_t i = 0; i < S.obs.size(); i++) {
        if (i) r += ",";
        r += "[\"" + jesc(S.obs[i].name) + "\",\"";
        char b[4];
        for (V v : S.obs[i].bytes) { snprintf(b, sizeof b, "%02x", (unsigned)(v.e ? evalExpr(v.e, m) : v.c) & 255); r += b; }
        r += "\"]";
    }
    return r + "]";
}
static std::string dem(const std::string& n) { std::string d = demangle(n); if (d.size() > 160) d = d.substr(0, 160) + "..."; return d; }
static std::string backtrace(State& S, unsigned max = 12) {
    std::string r;
    auto& st = S.stack();
    for (size_t i = st.size(); i-- > 0 && max--;) {
        Frame& f = st[i];
        u32 line = f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0;
        r += dem(f.fn->name) + ":" + std::to_string(line) + " < ";
    }
    return r;
}
static std::string schedJson(State& S) {
    std::string r = "[";
    for (size_t i = 0; i < S.sched.size(); i++) r += (i ? "," : "") + std::to_string(S.sched[i]);
    return r + "]";
}
static void violation(State& S, const std::string& kind, const std::string& msg, const Model& m) {
    std::string top = S.stack().empty() ? "" : S.stack().back().fn->name;
    std::string key = S.entry + "|" + kind + "|" + msg + "|" + top;
    if (!seenViol.insert(key).second) { if (seenViol.size() > 60) return; static std::map<std::string,int> cnt; if (++cnt[key] > 3) return; }
    __sync_fetch_and_add(&sh->violations, 1);
    if (sh->firstViol == 0) sh->firstViol = now();
    emit("{\"t\":\"violation\",\"entry\":\"" + S.entry + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(backtrace(S)) +
         "\",\"inputs\":" + inputsJson(S, m) + ",\"sched\":" + schedJson(S) + ",\"steps\":" + std::to_string(S.steps) + "}");
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg) {
    violation(S, kind, msg, S.pc.model);
    nErr++;
    throw PathEnd();
}
[[noreturn]] static void incomplete(State& S, const std::string& msg) {
    if (incompleteMsgs.insert(msg).second)
        emit("{\"t\":\"incomplete\",\"entry\":\"" + S.entry + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(backtrace(S)) + "\"}");
    throw PathEnd();
}

// ============================ decoding =======================================
static void leaves(Type* t, std::vector<std::pair<u8, u32>>& r, u32 off = 0) {   // (width, byte offset)
    if (t->isIntegerTy()) { r.push_back({(u8)std::min(t->getIntegerBitWidth(), 255u), off}); return; }
    if (t->isPointerTy()) { r.push_back({64, off}); return; }
    if (t->isDoubleTy()) { r.push_back({64, off}); return; }
    if (t->isFloatTy()) { r.push_back({32, off}); return; }
    if (t->isX86_FP80Ty()) { r.push_back({64, off}); r.push_back({16, off + 8}); return; }
    if (auto* st = dyn_cast<StructType>(t)) {
        if (st->isOpaque()) return;
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), r, off + sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u32 sz = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), r, off + i * sz);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u32 sz = DL->getTypeAllocSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), r, off + i * sz);
        return;
    }
    if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
    r.push_back({255, off});
}
static u32 nLeaves(Type* t) { std::vector<std::pair<u8, u32>> v; leaves(t, v); return v.size(); }
static u8 scalarW(Type* t) { std::vector<std::pair<u8, u32>> v; leaves(t, v); return v.size() == 1 ? v[0].first : 255; }

static u64 fnAddr(FnInfo* f) { return ((u64)FNOBJ << 32) | (f->idx * 16); }
static FnInfo* getFn(const Function* F) {
    auto it = fnMap.find(F);
    return it == fnMap.end() ? nullptr : it->second;
}
static bool constLeaves(const Constant* C, std::vector<V>& r);
static V constScalar(const Constant* C) {
    std::vector<V> r;
    if (!constLeaves(C, r) || r.size() != 1) { errs() << "bad const " << *C << "\n"; return cv(0); }
    return r[0];
}
static u64 undefCounter = 0;
static bool constLeaves(const Constant* C, std::vector<V>& r) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { r.push_back(cv(ci->getValue().extractBitsAsZExtValue(64, 0))); return false; } r.push_back(cv(ci->getZExtValue())); return true; }
    if (isa<ConstantPointerNull>(C)) { r.push_back(cv(0)); return true; }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        if (C->getType()->isX86_FP80Ty()) { r.push_back(cv(b.extractBitsAsZExtValue(64, 0))); r.push_back(cv(b.extractBitsAsZExtValue(16, 64))); }
        else r.push_back(cv(b.getZExtValue()));
        return true;
    }
    if (auto* F = dyn_cast<Function>(C)) { r.push_back(cv(fnAddr(getFn(F)))); return true; }
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constLeaves(A->getAliasee(), r);
    if (auto* G = dyn_cast<GlobalVariable>(C)) { r.push_back(cv(gAddr[G])); return true; }
    if (isa<UndefValue>(C)) {
        std::vector<std::pair<u8, u32>> l; leaves(C->getType(), l);
        for (auto& p : l) { Expr* e = mkVar("undef.ir" + std::to_string(undefCounter++), std::min<unsigned>(p.first, 64), true); r.push_back(V{e, 0}); }
        return true;
    }
    if (isa<ConstantAggregateZero>(C)) { for (u32 i = nLeaves(C->getType()); i--;) r.push_back(cv(0)); return true; }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (auto& op : ca->operands()) if (!constLeaves(cast<Constant>(op), r)) return false; return true; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) if (!constLeaves(cd->getElementAsConstant(i), r)) return false; return true; }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
            V b = constScalar(ce->getOperand(0));
            r.push_back(cv(b.c + off.getZExtValue())); return true;
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            V b = constScalar(ce->getOperand(0));
            u8 w = scalarW(ce->getType());
            r.push_back(cv(b.c & maskw(w))); return true;
        }
        case Instruction::Trunc: case Instruction::ZExt: {
            V b = constScalar(ce->getOperand(0)); r.push_back(cv(b.c & maskw(std::min(scalarW(ce->getType()), scalarW(ce->getOperand(0)->getType()))))); return true;
        }
        case Instruction::Sub: { V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); r.push_back(cv((a.c - b.c) & maskw(scalarW(ce->getType())))); return true; }
        case Instruction::Add: { V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); r.push_back(cv((a.c + b.c) & maskw(scalarW(ce->getType())))); return true; }
        case Instruction::ICmp: { V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); r.push_back(cv(ce->getPredicate() == CmpInst::ICMP_EQ ? a.c == b.c : a.c != b.c)); return true; }
        case Instruction::Xor: { V a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1)); r.push_back(cv(a.c ^ b.c)); return true; }
        default: errs() << "unsupported constexpr " << *C << "\n"; return false;
        }
    }
    errs() << "unsupported constant " << *C << "\n";
    return false;
}

// builtins
enum Bi {
    B_none = 0,
#define B(x) B_##x,
#include "builtins.def"
#undef B
    B_last
};
static const std::pair<const char*, int> biNames[] = {
#define B(x) {#x, B_##x},
#include "builtins.def"
#undef B
};
static int findBuiltin(const std::string& n) {
    static std::unordered_map<std::string, int> m;
    if (m.empty()) for (auto& p : biNames) m[p.first] = p.second;
    auto it = m.find(n);
    if (it != m.end()) return it->second;
    if (n.compare(0, 5, "llvm.") == 0) {
        static const std::pair<const char*, int> pre[] = {
            {"llvm.memcpy.", B_llvm_memcpy}, {"llvm.memmove.", B_llvm_memcpy}, {"llvm.memset.", B_llvm_memset},
            {"llvm.lifetime.start", B_llvm_lifetime}, {"llvm.lifetime.end", B_llvm_lifetime_end}, {"llvm.umin.", B_llvm_umin}, {"llvm.umax.", B_llvm_umax},
            {"llvm.smin.", B_llvm_smin}, {"llvm.smax.", B_llvm_smax}, {"llvm.abs.", B_llvm_abs}, {"llvm.ctlz.", B_llvm_ctlz}, {"llvm.cttz.", B_llvm_cttz},
            {"llvm.ctpop.", B_llvm_ctpop}, {"llvm.bswap.", B_llvm_bswap}, {"llvm.fshl.", B_llvm_fshl}, {"llvm.fshr.", B_llvm_fshr},
            {"llvm.sadd.with.overflow", B_llvm_saddo}, {"llvm.uadd.with.overflow", B_llvm_uaddo}, {"llvm.ssub.with.overflow", B_llvm_ssubo},
            {"llvm.usub.with.overflow", B_llvm_usubo}, {"llvm.smul.with.overflow", B_llvm_smulo}, {"llvm.umul.with.overflow", B_llvm_umulo},
            {"llvm.usub.sat", B_llvm_usubsat}, {"llvm.uadd.sat", B_llvm_uaddsat}, {"llvm.expect", B_llvm_expect}, {"llvm.va_start", B_llvm_va_start}, {"llvm.va_end", B_nop},
            {"llvm.va_copy", B_llvm_va_copy}, {"llvm.trap", B_llvm_trap}, {"llvm.ubsantrap", B_llvm_ubsantrap}, {"llvm.eh.typeid.for", B_llvm_typeid},
            {"llvm.objectsize", B_llvm_objectsize}, {"llvm.is.constant", B_llvm_isconst}, {"llvm.stacksave", B_ret0}, {"llvm.fabs.f", B_llvm_fabs}, {"llvm.copysign.f", B_llvm_copysign}, {"llvm.sadd.sat", B_llvm_saddsat}, {"llvm.ssub.sat", B_llvm_ssubsat}, {"llvm.minnum.f", B_llvm_minnum}, {"llvm.maxnum.f", B_llvm_maxnum},
            {"llvm.floor.f64", B_llvm_round}, {"llvm.ceil.f64", B_llvm_round}, {"llvm.trunc.f64", B_llvm_round}, {"llvm.rint.f64", B_llvm_round}, {"llvm.nearbyint.f64", B_llvm_round}, {"llvm.round.f64", B_llvm_round}, {"llvm.sqrt.f64", B_llvm_round}, {"llvm.bitreverse.", B_llvm_bitrev},
            {"llvm.threadlocal.address", B_llvm_tls}, {"llvm.is.fpclass", B_llvm_isfpclass}, {"llvm.ptrmask", B_llvm_ptrmask}, {"llvm.launder.invariant.group", B_llvm_expect}, {"llvm.strip.invariant.group", B_llvm_expect},
            {"llvm.", B_nop}};
        for (auto& p : pre) if (n.compare(0, strlen(p.first), p.first) == 0) {
            if (p.second == B_nop) {
                static const char* ok[] = {"llvm.va_end", "llvm.assume", "llvm.dbg.", "llvm.experimental.noalias", "llvm.invariant.", "llvm.stackrestore", "llvm.donothing", "llvm.prefetch", "llvm.sideeffect"};
                for (auto* o : ok) if (n.compare(0, strlen(o), o) == 0) return B_nop;
                return B_unsup;
            }
            return p.second;
        }
    }
    return 0;
}

struct Decoder {
    FnInfo* f; std::unordered_map<const Value*, i32> regOf; std::unordered_map<const BasicBlock*, u32> bbStart;
    std::vector<std::tuple<u32, const BasicBlock*, const BasicBlock*>> edgeFix;  // edge idx, from, to
    std::unordered_map<const Constant*, i32> cIdx;
    i32 opnd(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cIdx.find(c);
            if (it != cIdx.end()) return it->second;
            std::vector<V> l;
            if (!constLeaves(c, l)) l.assign(std::max<u32>(1, nLeaves(c->getType())), cv(0));
            // operand index -k-1 refers to consts[k]; leaf j is consts[k+j] i.e. index -(k+j)-1
            i32 idx = -(i32)f->consts.size() - 1;
            for (V x : l) f->consts.push_back(x);
            if (l.empty()) f->consts.push_back(cv(0));
            return cIdx[c] = idx;
        }
        auto it = regOf.find(v);
        if (it == regOf.end()) return -1;
        return it->second;
    }
    static i32 leaf(i32 base, u32 j) { return base >= 0 ? base + (i32)j : base - (i32)j; }
    u32 mkEdge(const BasicBlock* from, const BasicBlock* to) { f->edges.push_back({}); edgeFix.push_back({(u32)f->edges.size() - 1, from, to}); return f->edges.size() - 1; }
    Inst& push(IOp op, u32 line) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.line = line; i.dst = -1; f->code.push_back(i); return f->code.back(); }
    void unsup(const std::string& m, u32 line) { f->msgs.push_back(m); Inst& i = push(IUnsupported, line); i.x = f->msgs.size() - 1; }

    void run() {
        Function& F = *f->F;
        u32 n = 0;
        for (auto& a : F.args()) { regOf[&a] = n; std::vector<std::pair<u8, u32>> l; leaves(a.getType(), l); for (auto& p : l) f->argSlotW.push_back(p.first); n += l.size(); }
        for (auto& bb : F) for (auto& I : bb) if (!I.getType()->isVoidTy()) { regOf[&I] = n; n += nLeaves(I.getType()); }
        f->nregs = n;
        f->consts.push_back(cv(0));
        f->retSlots = nLeaves(F.getReturnType());
        for (auto& bb : F) { bbStart[&bb] = f->code.size(); for (auto& I : bb) inst(I, bb); }
        for (auto& t : edgeFix) {
            Edge& e = f->edges[std::get<0>(t)];
            e.target = bbStart[std::get<2>(t)];
            for (auto& phi : std::get<2>(t)->phis()) {
                i32 d = regOf[&phi], s = opnd(phi.getIncomingValueForBlock(std::get<1>(t)));
                for (u32 j = 0, k = nLeaves(phi.getType()); j < k; j++) e.moves.push_back({d + (i32)j, leaf(s, j)});
            }
        }
        f->decoded = true;
    }
    void inst(Instruction& I, BasicBlock& bb) {
        u32 line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
        i32 dst = I.getType()->isVoidTy() ? -1 : regOf[&I];
        if (isa<PHINode>(I)) return;
        if (isa<DbgInfoIntrinsic>(I)) return;
        auto text = [&] { std::string s; raw_string_ostream os(s); os << I; return s; };
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            u8 w = scalarW(I.getType());
            if (w > 64 || I.getType()->isX86_FP80Ty()) return unsup("binop " + text(), line);
            IOp op;
            switch (bo->getOpcode()) {
            case Instruction::Add: op = IAdd; break; case Instruction::Sub: op = ISub; break; case Instruction::Mul: op = IMul; break;
            case Instruction::UDiv: op = IUDiv; break; case Instruction::SDiv: op = ISDiv; break; case Instruction::URem: op = IURem; break; case Instruction::SRem: op = ISRem; break;
            case Instruction::And: op = IAnd; break; case Instruction::Or: op = IOr; break; case Instruction::Xor: op = IXor; break;
            case Instruction::Shl: op = IShl; break; case Instruction::LShr: op = ILShr; break; case Instruction::AShr: op = IAShr; break;
            case Instruction::FAdd: op = IFAdd; break; case Instruction::FSub: op = IFSub; break; case Instruction::FMul: op = IFMul; break; case Instruction::FDiv: op = IFDiv; break; case Instruction::FRem: op = IFRem; break;
            default: return unsup("binop " + text(), line);
            }
            i32 a = opnd(bo->getOperand(0)), b = opnd(bo->getOperand(1));
            Inst& i = push(op, line); i.w = i.kw = w; i.dst = dst; i.a = a; i.b = b;
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(&I)) {
            i32 a = opnd(u->getOperand(0)); Inst& i = push(IFNeg, line); i.w = i.kw = scalarW(I.getType()); i.dst = dst; i.a = a; return;
        }
        if (auto* c = dyn_cast<CmpInst>(&I)) {
            u8 w = scalarW(c->getOperand(0)->getType());
            if (w > 64 || c->getOperand(0)->getType()->isX86_FP80Ty()) return unsup("cmp " + text(), line);
            i32 a = opnd(c->getOperand(0)), b = opnd(c->getOperand(1));
            Inst& i = push(isa<ICmpInst>(c) ? ICmp : IFCmp, line); i.kw = w; i.w = 1; i.sub = c->getPredicate(); i.dst = dst; i.a = a; i.b = b;
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(&I)) {
            if (s->getCondition()->getType()->isVectorTy()) return unsup("select " + text(), line);
            std::vector<std::pair<u8, u32>> l; leaves(I.getType(), l);
            i32 c = opnd(s->getCondition()), a = opnd(s->getTrueValue()), b = opnd(s->getFalseValue());
            for (u32 j = 0; j < l.size(); j++) { Inst& i = push(ISelect, line); i.w = l[j].first; i.dst = dst + j; i.c = c; i.a = leaf(a, j); i.b = leaf(b, j); }
            return;
        }
        if (auto* c = dyn_cast<CastInst>(&I)) {
            u8 w = scalarW(I.getType()), kw = scalarW(c->getOperand(0)->getType());
            i32 a = opnd(c->getOperand(0));
            if (I.getType()->isX86_FP80Ty() || c->getOperand(0)->getType()->isX86_FP80Ty()) return unsup("cast " + text(), line);
            if (c->getOpcode() == Instruction::BitCast && nLeaves(I.getType()) == nLeaves(c->getOperand(0)->getType())) {
                for (u32 j = 0, k = nLeaves(I.getType()); j < k; j++) { Inst& i = push(IMov, line); i.w = w; i.dst = dst + j; i.a = leaf(a, j); }
                return;
            }
            if (w > 64 || kw > 64) return unsup("cast " + text(), line);
            IOp op = IMov; u8 sub = 0;
            switch (c->getOpcode()) {
            case Instruction::ZExt: op = IZExt; break; case Instruction::SExt: op = ISExt; break; case Instruction::Trunc: op = ITrunc; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: op = w < kw ? ITrunc : w > kw ? IZExt : IMov; break;
            case Instruction::BitCast: case Instruction::AddrSpaceCast: op = IMov; break;
            case Instruction::FPToSI: op = IConv; sub = OFToSI; break; case Instruction::FPToUI: op = IConv; sub = OFToUI; break;
            case Instruction::SIToFP: op = IConv; sub = OSIToF; break; case Instruction::UIToFP: op = IConv; sub = OUIToF; break;
            case Instruction::FPExt: case Instruction::FPTrunc: op = IConv; sub = OFToF; break;
            default: return unsup("cast " + text(), line);
            }
            Inst& i = push(op, line); i.w = w; i.kw = kw; i.sub = sub; i.dst = dst; i.a = a;
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) {
            std::vector<std::pair<u8, u32>> lv; leaves(I.getType(), lv);
            i32 a = opnd(l->getPointerOperand());
            for (u32 j = 0; j < lv.size(); j++) {
                if (lv[j].first > 64) return unsup("load " + text(), line);
                Inst& i = push(ILoad, line); i.w = lv[j].first; i.dst = dst + j; i.a = a; i.x = lv[j].second; i.sub = l->isAtomic() ? 1 + 2 * isAcquireOrStronger(l->getOrdering()) : 0;
            }
            return;
        }
        if (auto* s = dyn_cast<StoreInst>(&I)) {
            std::vector<std::pair<u8, u32>> lv; leaves(s->getValueOperand()->getType(), lv);
            i32 a = opnd(s->getPointerOperand()), v = opnd(s->getValueOperand());
            for (u32 j = 0; j < lv.size(); j++) {
                if (lv[j].first > 64) return unsup("store " + text(), line);
                Inst& i = push(IStore, line); i.w = lv[j].first; i.a = a; i.b = leaf(v, j); i.x = lv[j].second; i.sub = s->isAtomic() ? 1 + 2 * isReleaseOrStronger(s->getOrdering()) : 0;
            }
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            if (I.getType()->isVectorTy()) return unsup("gep " + text(), line);
            GepInfo gi; gi.off = 0;
            for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
                Value* op = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(op)) gi.off += (u64)(ci->getSExtValue() * (i64)sz);
                else { gi.idx.push_back({opnd(op), sz}); gi.iw.push_back(scalarW(op->getType())); }
            }
            i32 a = opnd(g->getPointerOperand());
            f->geps.push_back(gi);
            Inst& i = push(IGep, line); i.w = 64; i.dst = dst; i.a = a; i.x = f->geps.size() - 1;
            return;
        }
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
            i32 n = opnd(a->getArraySize());
            Inst& i = push(IAlloca, line); i.w = 64; i.dst = dst; i.a = n; i.kw = scalarW(a->getArraySize()->getType()); i.x = DL->getTypeAllocSize(a->getAllocatedType());
            return;
        }
        if (auto* b = dyn_cast<BranchInst>(&I)) {
            if (b->isUnconditional()) { u32 e = mkEdge(&bb, b->getSuccessor(0)); Inst& i = push(IBr, line); i.x = e; return; }
            i32 c = opnd(b->getCondition());
            u32 e0 = mkEdge(&bb, b->getSuccessor(0)), e1 = mkEdge(&bb, b->getSuccessor(1));
            Inst& i = push(ICondBr, line); i.a = c; i.x = e0; i.y = e1;
            return;
        }
        if (auto* s = dyn_cast<SwitchInst>(&I)) {
            SwitchInfo si;
            i32 c = opnd(s->getCondition());
            std::map<const BasicBlock*, u32> em;
            auto edge = [&](const BasicBlock* b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = mkEdge(&bb, b); };
            si.def = edge(s->getDefaultDest());
            for (auto& cs : s->cases()) { u32 e = edge(cs.getCaseSuccessor()); si.cases.push_back({cs.getCaseValue()->getZExtValue(), e}); si.map[cs.getCaseValue()->getZExtValue()] = e; }
            f->switches.push_back(si);
            Inst& i = push(ISwitch, line); i.a = c; i.kw = scalarW(s->getCondition()->getType()); i.x = f->switches.size() - 1;
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&I)) {
            i32 a = r->getReturnValue() ? opnd(r->getReturnValue()) : 0;
            Inst& i = push(IRet, line); i.a = a; i.n = r->getReturnValue() ? nLeaves(r->getReturnValue()->getType()) : 0;
            return;
        }
        if (isa<UnreachableInst>(I)) { push(IUnreachable, line); return; }
        if (auto* cb = dyn_cast<CallBase>(&I)) {
            CallInfo ci; ci.callee = nullptr; ci.calleeOp = 0; ci.normal = ci.unwind = -1; ci.retSlots = nLeaves(I.getType()); ci.tail = false;
            if (cb->isInlineAsm()) {
                auto* ia = cast<InlineAsm>(cb->getCalledOperand());
                if (ia->getAsmString().empty()) return;
                return unsup("inline asm", line);
            }
            const Value* cal = cb->getCalledOperand()->stripPointerCasts();
            if (auto* A = dyn_cast<GlobalAlias>(cal)) cal = A->getAliasee()->stripPointerCasts();
            if (auto* F = dyn_cast<Function>(cal)) ci.callee = getFn(F);
            else ci.calleeOp = opnd(cb->getCalledOperand());
            u32 fixed = cb->getFunctionType()->getNumParams();
            ci.fixedSlots = 0;
            for (u32 k = 0; k < cb->arg_size(); k++) {
                Value* av = cb->getArgOperand(k);
                if (av->getType()->isMetadataTy()) { continue; }
                std::vector<std::pair<u8, u32>> l; leaves(av->getType(), l);
                i32 o = opnd(av);
                for (u32 j = 0; j < l.size(); j++) { ci.args.push_back(leaf(o, j)); ci.argw.push_back(l[j].first); ci.byval.push_back(cb->isByValArgument(k) ? (u32)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
                if (k < fixed) ci.fixedSlots += l.size();
            }
            if (auto* iv = dyn_cast<InvokeInst>(cb)) { ci.normal = mkEdge(&bb, iv->getNormalDest()); ci.unwind = mkEdge(&bb, iv->getUnwindDest()); }
            f->calls.push_back(ci);
            Inst& i = push(ICall, line); i.dst = dst; i.x = f->calls.size() - 1; i.w = ci.retSlots == 1 ? scalarW(I.getType()) : 0;
            return;
        }
        if (auto* r = dyn_cast<ResumeInst>(&I)) { i32 a = opnd(r->getValue()); Inst& i = push(IResume, line); i.a = a; return; }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            LPInfo li; li.cleanup = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                std::vector<u64> tis;
                if (lp->isCatch(k)) tis.push_back(constScalar(lp->getClause(k)).c);
                else { std::vector<V> l; constLeaves(lp->getClause(k), l); for (V v : l) tis.push_back(v.c); }
                li.clauses.push_back({lp->isFilter(k), tis});
            }
            f->lps.push_back(li);
            Inst& i = push(ILandingPad, line); i.dst = dst; i.x = f->lps.size() - 1;
            return;
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            Type* t = ev->getAggregateOperand()->getType(); u32 off = 0;
            for (unsigned ix : ev->indices()) {
                if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nLeaves(st->getElementType(k)); t = st->getElementType(ix); }
                else { auto* at = cast<ArrayType>(t); off += ix * nLeaves(at->getElementType()); t = at->getElementType(); }
            }
            i32 a = opnd(ev->getAggregateOperand());
            std::vector<std::pair<u8, u32>> l; leaves(t, l);
            for (u32 j = 0; j < l.size(); j++) { Inst& i = push(IMov, line); i.w = l[j].first; i.dst = dst + j; i.a = leaf(a, off + j); }
            return;
        }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
            Type* t = iv->getAggregateOperand()->getType(); u32 off = 0;
            for (unsigned ix : iv->indices()) {
                if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nLeaves(st->getElementType(k)); t = st->getElementType(ix); }
                else { auto* at = cast<ArrayType>(t); off += ix * nLeaves(at->getElementType()); t = at->getElementType(); }
            }
            i32 a = opnd(iv->getAggregateOperand()), b = opnd(iv->getInsertedValueOperand());
            u32 nl = nLeaves(t);
            std::vector<std::pair<u8, u32>> l; leaves(I.getType(), l);
            for (u32 j = 0; j < l.size(); j++) { Inst& i = push(IMov, line); i.w = l[j].first; i.dst = dst + j; i.a = (j >= off && j < off + nl) ? leaf(b, j - off) : leaf(a, j); }
            return;
        }
        if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
            if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { i32 a = opnd(ee->getVectorOperand()); Inst& i = push(IMov, line); i.w = scalarW(I.getType()); i.dst = dst; i.a = leaf(a, ci->getZExtValue()); return; }
            return unsup("extractelement", line);
        }
        if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
            if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) {
                i32 a = opnd(ie->getOperand(0)), b = opnd(ie->getOperand(1)); std::vector<std::pair<u8, u32>> l; leaves(I.getType(), l);
                for (u32 j = 0; j < l.size(); j++) { Inst& i = push(IMov, line); i.w = l[j].first; i.dst = dst + j; i.a = j == ci->getZExtValue() ? b : leaf(a, j); }
                return;
            }
            return unsup("insertelement", line);
        }
        if (auto* fr = dyn_cast<FreezeInst>(&I)) {
            std::vector<std::pair<u8, u32>> l; leaves(I.getType(), l); i32 a = opnd(fr->getOperand(0));
            for (u32 j = 0; j < l.size(); j++) { Inst& i = push(IMov, line); i.w = l[j].first; i.dst = dst + j; i.a = leaf(a, j); }
            return;
        }
        if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) {
            i32 a = opnd(rm->getPointerOperand()), b = opnd(rm->getValOperand());
            Inst& i = push(IRmw, line); i.w = scalarW(I.getType()); i.dst = dst; i.a = a; i.b = b; i.sub = rm->getOperation(); i.kw = isAcquireOrStronger(rm->getOrdering()) + 2 * isReleaseOrStronger(rm->getOrdering()); return;
        }
        if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
            i32 a = opnd(cx->getPointerOperand()), b = opnd(cx->getCompareOperand()), c = opnd(cx->getNewValOperand());
            Inst& i = push(ICmpXchg, line); i.w = scalarW(cx->getCompareOperand()->getType()); i.dst = dst; i.a = a; i.b = b; i.c = c;
            i.kw = isAcquireOrStronger(cx->getSuccessOrdering()) + 2 * isReleaseOrStronger(cx->getSuccessOrdering()) + 4 * isAcquireOrStronger(cx->getFailureOrdering()); return;
        }
        if (auto* fe = dyn_cast<FenceInst>(&I)) {
            Inst& i = push(IFence, line); i.kw = isAcquireOrStronger(fe->getOrdering()) + 2 * isReleaseOrStronger(fe->getOrdering()); return;
        }
        unsup(text(), line);
    }
};
static void decode(FnInfo* f) { if (!f->decoded) { Decoder d; d.f = f; d.run(); } }

// ============================ state ops ======================================
static State* cloneState(State& S) { nForks++; State* n = new State(S); n->forks++; return n; }

static inline Expr* E(V v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V fromE(Expr* e) { if (isConst(e)) return cv(e->c); return V{e, 0}; }

// does the (feasible both ways) condition depend on undefined data?
static void checkUndef(State& S, Expr* c, const char* what) {
    if (!c->undef) return;
    Expr* d = mkBin(OXor, c, renameUndef(c));
    if (isConst(d) && !d->c) return;
    Model m;
    if (maySat(S.pc, d, &m) == RSat) {
        violation(S, "uninit", std::string(what) + " depends on uninitialised memory", m);
        nErr++;
        throw PathEnd();
    }
}
static void pushWork(State* s) { work.push_back(s); }

// Decide a condition; forks (the clone re-executes the current instruction).
static bool decide(State& S, Expr* c) {
    if (isConst(c)) return c->c;
    auto it = S.pc.conc.find(c);
    if (it != S.pc.conc.end()) return it->second;
    if (c->undef) checkUndef(S, c, "branch");
    nSymBranches++;
    bool cur = evalExpr(c, S.pc.model);
    Expr* other = cur ? mkNot(c) : c;
    Model m;
    SatRes r = maySat(S.pc, other, &m);
    if (r == RUnknown) incomplete(S, "solver returned unknown");
    if (r == RSat) {
        State* n = cloneState(S);
        addConstraint(n->pc, other, &m);
        n->pc.conc[c] = !cur;
        pushWork(n);
        addConstraint(S.pc, cur ? c : mkNot(c), nullptr);
    }
    S.pc.conc[c] = cur;
    return cur;
}
static u64 getConc(State& S, V v, unsigned w, unsigned limit = 600) {
    if (!v.e) return v.c;
    if (v.e->w == 1) return decide(S, v.e);
    auto it = S.pc.conc.find(v.e);
    if (it != S.pc.conc.end()) return it->second;
    if (v.e->undef) {
        Expr* d = mkNot(mkBin(OEq, v.e, renameUndef(v.e)));
        if (!(isConst(d) && !d->c)) { Model m; if (maySat(S.pc, d, &m) == RSat) { violation(S, "uninit", "address/size depends on uninitialised memory", m); nErr++; throw PathEnd(); } }
    }
    u64 first = evalExpr(v.e, S.pc.model);
    // enumerate all other values
    PathCond pc = S.pc;
    Expr* excl = mkNot(mkBin(OEq, v.e, mkConst(first, w)));
    std::vector<std::pair<u64, Model>> vals;
    for (;;) {
        Model m;
        SatRes r = maySat(pc, excl, &m);
        if (r == RUnknown) incomplete(S, "solver returned unknown");
        if (r == RUnsat) break;
        u64 x = evalExpr(v.e, m);
        vals.push_back({x, m});
        if (vals.size() > limit) incomplete(S, "too many values to concretise");
        excl = mkBin(OAnd, excl, mkNot(mkBin(OEq, v.e, mkConst(x, w))));
    }
    for (auto& p : vals) {
        State* n = cloneState(S);
        addConstraint(n->pc, mkBin(OEq, v.e, mkConst(p.first, w)), &p.second);
        n->pc.conc[v.e] = p.first;
        pushWork(n);
    }
    if (!vals.empty()) addConstraint(S.pc, mkBin(OEq, v.e, mkConst(first, w)), nullptr);
    S.pc.conc[v.e] = first;
    return first;
}

// ---- race detection ----------------------------------------------------------
static bool hb(const VClock& vc, u32 tid, u32 clk) { return tid < vc.c.size() && vc.c[tid] >= clk; }
static void raceCheck(State& S, u64 addr, u32 n, bool write) {
    Thread& T = S.th[S.cur];
    u32 id = addr >> 32;
    Obj* o = S.mem.get(id);
    if (o && o->kind == KStack && o->tid == S.cur) return;
    if (o && o->ro) return;
    Frame& f = S.stack().back();
    u32 line = f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0;
    auto& sh = S.shadow[id];
    u32 off = (u32)addr, need = off + n;
    if (!sh) sh = std::make_shared<ObjShadow>();
    else if (sh.use_count() > 1) sh = std::make_shared<ObjShadow>(*sh);
    if (sh->size() < need) sh->resize(need);
    for (u32 i = 0; i < n; i++) {
        Shadow& s = (*sh)[off + i];
        if (s.wtid != ~0u && s.wtid != S.cur && !hb(T.vc, s.wtid, s.wclk))
            fail(S, "race", std::string("data race: ") + (write ? "write" : "read") + " in " + dem(f.fn->name) + ":" + std::to_string(line) + " vs write in " + (s.wfn ? dem(s.wfn->name) : "?") + ":" + std::to_string(s.wline));
        if (write) {
            for (u32 t = 0; t < MaxThreads; t++) if (t != S.cur && s.r[t] && !hb(T.vc, t, s.r[t]))
                fail(S, "race", std::string("data race: write in ") + dem(f.fn->name) + ":" + std::to_string(line) + " vs read in " + (s.rfn ? dem(s.rfn->name) : "?") + ":" + std::to_string(s.rline));
            s.wtid = S.cur; s.wclk = T.vc.c[S.cur]; s.wfn = f.fn; s.wline = line; memset(s.r, 0, sizeof s.r);
        } else {
            s.r[S.cur] = T.vc.c[S.cur]; s.rfn = f.fn; s.rline = line;
        }
    }
}
static bool raceOn(State& S) { return S.th.size() > 1; }

static Obj* checkAccess(State& S, u64 addr, u64 n, bool write) {
    u32 id = addr >> 32, off = (u32)addr;
    if (id == 0) fail(S, "mem", write ? "null/wild pointer write" : "null/wild pointer read");
    Obj* o = S.mem.get(id);
    if (!o || id == FNOBJ) fail(S, "mem", "wild pointer access");
    if (o == &deadHeap) fail(S, "mem", "use after free");
    if (o == &deadStack) fail(S, "mem", "use of dead stack object");
    if ((u64)off + n > o->size) fail(S, "mem", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string((i32)off) + " of object of size " + std::to_string(o->size) + (o->name ? std::string(" ") + o->name : ""));
    if (write && o->ro) fail(S, "mem", "write to read-only object");
    return o;
}
static Expr* byteExpr(State& S, u32 id, u32 off) {
    Obj* o = S.mem.get(id);
    if (o->st[off] == 0) return mkConst(o->data[off], 8);
    if (o->st[off] == 1) return o->sym[off];
    // numbered along the path and shared between paths
    static std::vector<Expr*> undefs;
    u32 un = S.undefCount++;
    if (un >= undefs.size()) undefs.resize(un + 1, nullptr);
    if (!undefs[un]) undefs[un] = mkVar("undef" + std::to_string(un), 8, true);
    Expr* u = undefs[un];
    o = S.mem.writable(id);
    if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
    o->sym[off] = u; o->st[off] = 1;
    return u;
}
static V loadAt(State& S, u64 addr, unsigned w) {
    u32 n = (w + 7) / 8;
    Obj* o = checkAccess(S, addr, n, false);
    if (raceOn(S)) { raceCheck(S, addr, n, false); }
    u32 off = (u32)addr;
    bool allc = true;
    for (u32 i = 0; i < n; i++) if (o->st[off + i]) { allc = false; break; }
    if (allc) { u64 v = 0; memcpy(&v, o->data + off, n); return cv(v & maskw(w)); }
    Expr* e = byteExpr(S, addr >> 32, off);
    for (u32 i = 1; i < n; i++) e = mkConcat(byteExpr(S, addr >> 32, off + i), e);
    if (w < n * 8) e = mkExtract(e, 0, w);
    return fromE(e);
}
static void storeByte(Obj* o, u32 off, Expr* e) {
    if (isConst(e)) { o->data[off] = e->c; o->st[off] = 0; return; }
    if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*));
    o->sym[off] = e; o->st[off] = 1;
}
static void storeAt(State& S, u64 addr, V v, unsigned w) {
    u32 n = (w + 7) / 8;
    checkAccess(S, addr, n, true);
    if (raceOn(S)) raceCheck(S, addr, n, true);
    Obj* o = S.mem.writable(addr >> 32);
    u32 off = (u32)addr;
    if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->st + off, 0, n); return; }
    Expr* e = v.e;
    if (w < n * 8) e = mkZExt(e, n * 8);
    for (u32 i = 0; i < n; i++) storeByte(o, off + i, mkExtract(e, i * 8, 8));
}
// resolve a possibly symbolic address
static u64 resolveAddr(State& S, V p) { return getConc(S, p, 64); }
static V loadSym(State& S, V p, unsigned w) {
    if (!p.e) return loadAt(S, p.c, w);
    auto it = S.pc.conc.find(p.e);
    if (it != S.pc.conc.end()) return loadAt(S, it->second, w);
    u64 a0 = evalExpr(p.e, S.pc.model);
    u32 id = a0 >> 32, n = (w + 7) / 8;
    Obj* o = S.mem.get(id);
    if (id > FNOBJ && o && o != &deadHeap && o != &deadStack && o->size <= 1024 && o->size >= n && !p.e->undef) {
        Expr* base = mkConst((u64)id << 32, 64);
        Expr* off = mkBin(OSub, p.e, base);
        Expr* inb = mkBin(OUle, off, mkConst(o->size - n, 64));
        Model m;
        if (maySat(S.pc, mkNot(inb), &m) == RUnsat) {
            Expr* r = nullptr;
            // choose stride by alignment of the reachable offsets
            for (u32 s : {n, 1u}) {
                if (s > 1) { Expr* al = mkNot(mkBin(OEq, mkBin(OAnd, off, mkConst(s - 1, 64)), mkConst((a0 & (s - 1)), 64))); if (maySat(S.pc, al, &m) != RUnsat) continue; }
                for (i64 k = (i64)(o->size - n) / s * s + (s > 1 ? (i64)(a0 & (s - 1)) : 0); k >= 0; k -= s) {
                    if (k + n > o->size) continue;
                    V v = loadAt(S, ((u64)id << 32) + k, w);
                    Expr* ve = E(v, w);
                    r = r ? mkIte(mkBin(OEq, off, mkConst(k, 64)), ve, r) : ve;
                }
                break;
            }
            if (r) return fromE(r);
        }
    }
    u64 a = getConc(S, p, 64);
    return loadAt(S, a, w);
}
static void copyBytes(State& S, u64 dst, u64 src, u64 n) {
    if (!n) return;
    checkAccess(S, src, n, false); checkAccess(S, dst, n, true);
    if (raceOn(S)) { raceCheck(S, src, n, false); raceCheck(S, dst, n, true); }
    Obj* d = S.mem.writable(dst >> 32);
    Obj* s = S.mem.get(src >> 32);
    u32 so = (u32)src, d0 = (u32)dst;
    if (s->sym && !d->sym) d->sym = (Expr**)calloc(d->size ? d->size : 1, sizeof(Expr*));
    memmove(d->data + d0, s->data + so, n);
    memmove(d->st + d0, s->st + so, n);
    if (s->sym) memmove(d->sym + d0, s->sym + so, n * sizeof(Expr*));
}
static std::string readStr(State& S, u64 addr) {
    std::string r;
    for (;; addr++) { V v = loadAt(S, addr, 8); u64 c = v.e ? evalExpr(v.e, S.pc.model) : v.c; if (!c) break; r += (char)c; if (r.size() > 4096) break; }
    return r;
}

// ============================ operations =====================================
static V binop(IOp op, unsigned w, V a, V b) {
    static const Op map[] = {OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr, OFAdd, OFSub, OFMul, OFDiv, OFRem};
    if (!a.e && !b.e) return cv(evalOp(map[op], w, w, a.c, b.c));
    return fromE(mkBin(map[op], E(a, w), E(b, w)));
}
static Expr* icmpE(unsigned pred, Expr* a, Expr* b) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkBin(OEq, a, b);
    case CmpInst::ICMP_NE: return mkNot(mkBin(OEq, a, b));
    case CmpInst::ICMP_UGT: return mkBin(OUlt, b, a);
    case CmpInst::ICMP_UGE: return mkBin(OUle, b, a);
    case CmpInst::ICMP_ULT: return mkBin(OUlt, a, b);
    case CmpInst::ICMP_ULE: return mkBin(OUle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(OSlt, b, a);
    case CmpInst::ICMP_SGE: return mkBin(OSle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(OSlt, a, b);
    default: return mkBin(OSle, a, b);
    }
}
static inline u64 icmpC(unsigned pred, unsigned w, u64 a, u64 b) {
    switch (pred) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w); case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
    case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w);
    }
}
static Expr* fcmpE(unsigned pred, Expr* a, Expr* b) {
    auto eq = [&] { return mkBin(OFEq, a, b); }; auto lt = [&] { return mkBin(OFLt, a, b); }; auto gt = [&] { return mkBin(OFLt, b, a); };
    auto le = [&] { return mkBin(OFLe, a, b); }; auto ge = [&] { return mkBin(OFLe, b, a); }; auto uno = [&] { return mkBin(OFUno, a, b); };
    switch (pred) {
    case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_OGT: return gt(); case CmpInst::FCMP_OGE: return ge(); case CmpInst::FCMP_OLT: return lt(); case CmpInst::FCMP_OLE: return le();
    case CmpInst::FCMP_ONE: return mkNot(mkBin(OOr, uno(), eq())); case CmpInst::FCMP_ORD: return mkNot(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkBin(OOr, uno(), eq()); case CmpInst::FCMP_UGT: return mkNot(le()); case CmpInst::FCMP_UGE: return mkNot(lt());
    case CmpInst::FCMP_ULT: return mkNot(ge()); case CmpInst::FCMP_ULE: return mkNot(gt()); default: return mkNot(eq());
    }
}

// ---- control flow -------------------------------------------------------------
static inline V rd(Frame& f, i32 i) { return i >= 0 ? f.regs[i] : f.fn->consts[-i - 1]; }
static void takeEdge(Frame& f, u32 ei) {
    Edge& e = f.fn->edges[ei];
    if (!e.moves.empty()) {
        if (e.moves.size() == 1) f.regs[e.moves[0].first] = rd(f, e.moves[0].second);
        else {
            V tmp[64]; size_t n = e.moves.size();
            std::vector<V> big; V* t = tmp;
            if (n > 64) { big.resize(n); t = big.data(); }
            for (size_t i = 0; i < n; i++) t[i] = rd(f, e.moves[i].second);
            for (size_t i = 0; i < n; i++) f.regs[e.moves[i].first] = t[i];
        }
    }
    f.pc = e.target;
}
static void pushFrame(State& S, FnInfo* fn, const V* args, u32 nargs, u32 fixed) {
    decode(fn);
    fn->hits++;
    auto& st = S.stack();
    if (st.size() > 100000) fail(S, "hang", "call stack too deep");      // 8 MB hold fewer frames
    st.emplace_back();
    Frame& f = st.back();
    f.fn = fn; f.pc = 0; f.vaObj = 0;
    f.regs.assign(fn->nregs, cv(0));
    u32 n = std::min<u32>(fixed, fn->argSlotW.size());
    for (u32 i = 0; i < n && i < nargs; i++) f.regs[i] = args[i];
    if (fn->varargs) for (u32 i = fixed; i < nargs; i++) f.va.push_back(args[i]);
}
static void killFrame(State& S, Frame& f) {
    for (u32 a : f.allocas) S.mem.kill(a, &deadStack);
    if (f.vaObj) S.mem.kill(f.vaObj, &deadStack);
}
static void threadSwitchPoint(State& S, bool mustSwitch);
static void finishCall(State& S, const V* ret, u32 n) {   // top frame is the caller at its call instruction
    Frame& f = S.stack().back();
    Inst& I = f.fn->code[f.pc];
    CallInfo& ci = f.fn->calls[I.x];
    for (u32 i = 0; i < ci.retSlots && i < n; i++) f.regs[I.dst + i] = ret[i];
    if (ci.normal >= 0) takeEdge(f, ci.normal); else f.pc++;
}
static void endPath(State& S) { S.pathDone = true; throw PathEnd(); }
static void doReturn(State& S, const V* ret, u32 n) {
    Frame& f = S.stack().back();
    u32 exc = f.excOnReturn;
    killFrame(S, f);
    S.stack().pop_back();
    if (exc == 2) { return; }           // frame was pushed "on the side" (re-executes the caller's instruction flow as is)
    if (S.stack().empty()) {
        S.th[S.cur].status = 3;
        if (S.cur == 0) endPath(S);
        // wake joiners: join transfers the clock
        for (auto& t : S.th) if (t.status == 2 && t.waitOn == S.cur) t.status = 0;
        threadSwitchPoint(S, true);
        return;
    }
    finishCall(S, ret, n);
}

// ---- exceptions ---------------------------------------------------------------
static std::string tiName(State& S, u64 ti) { u64 n = loadAt(S, ti + 8, 64).c; return dem("_Z" "TS" + readStr(S, n)).c_str(); }
static bool tiMatch(State& S, u64 thrown, u64 want, u64& adj) {
    if (thrown == want) return true;
    u64 vt = loadAt(S, thrown, 64).c;
    if (vt == siVtable + 16) return tiMatch(S, loadAt(S, thrown + 16, 64).c, want, adj);
    if (vt == vmiVtable + 16) {
        u32 cnt = loadAt(S, thrown + 20, 32).c;
        for (u32 i = 0; i < cnt; i++) {
            u64 b = loadAt(S, thrown + 24 + 16 * i, 64).c; i64 fl = loadAt(S, thrown + 32 + 16 * i, 64).c;
            if (!(fl & 2)) continue;
            u64 a2 = adj + (fl >> 8);
            if (tiMatch(S, b, want, a2)) { adj = a2; return true; }
        }
    }
    return false;
}
static u64 tiSel(u64 ti) { return ti ? (ti >> 32) & 0x7fffffff : 0x7ffffff0; }
// find handler in landing pad; returns 1 catch (sel), 2 cleanup only, 0 none
static int lpMatch(State& S, LPInfo& lp, u64 ti, u64& sel, u64& adj) {
    for (auto& c : lp.clauses) {
        if (!c.first) {
            adj = 0;
            if (c.second[0] == 0 || tiMatch(S, ti, c.second[0], adj)) { sel = tiSel(c.second[0]); return 1; }
        } else {
            bool any = false; u64 a = 0;
            for (u64 t : c.second) if (t == 0 || tiMatch(S, ti, t, a)) any = true;
            if (!any) { sel = (u64)(u32)-1; return 1; }
        }
    }
    if (lp.cleanup) { sel = 0; return 2; }
    return 0;
}
// Unwind thread S.cur with exception object exc. skipTop: frames above were already removed; the top frame is at a call.
static void unwind(State& S, u64 exc) {
    auto& st = S.stack();
    ExcInfo& ei = S.exc[exc];
    // phase 1
    bool found = false;
    for (size_t i = st.size(); i-- > 0;) {
        Frame& f = st[i];
        Inst& I = f.fn->code[f.pc];
        if (I.op != ICall) continue;
        CallInfo& ci = f.fn->calls[I.x];
        if (ci.unwind < 0) continue;
        Edge& e = f.fn->edges[ci.unwind];
        Inst& L = f.fn->code[e.target];
        u64 sel, adj = 0;
        if (L.op == ILandingPad && lpMatch(S, f.fn->lps[L.x], ei.ti, sel, adj) == 1) { found = true; break; }
    }
    if (!found) {
        std::string what = "uncaught exception " + tiName(S, ei.ti);
        fail(S, "uncaught", what);
    }
    for (;;) {
        Frame& f = st.back();
        Inst& I = f.fn->code[f.pc];
        if (I.op == ICall) {
            CallInfo& ci = f.fn->calls[I.x];
            if (ci.unwind >= 0) {
                Edge& e = f.fn->edges[ci.unwind];
                Inst& L = f.fn->code[e.target];
                u64 sel, adj = 0;
                if (L.op == ILandingPad) {
                    int k = lpMatch(S, f.fn->lps[L.x], ei.ti, sel, adj);
                    if (k) { if (k == 1) ei.adj = exc + adj; S.th[S.cur].lpPtr = exc; S.th[S.cur].lpSel = sel; takeEdge(f, ci.unwind); return; }
                }
            }
        }
        killFrame(S, f);
        st.pop_back();
        if (st.empty()) fail(S, "uncaught", "exception left the entry function");
    }
}

// texts written by sym_digits: the constraint which ties them to the value, the value
static std::map<std::vector<Expr*>, std::pair<Expr*, Expr*>> gDigits;

#include "builtins.inc"

// ============================ interpreter ====================================
static void step(State& S) {
    Frame& f = S.stack().back();
    Inst& I = f.fn->code[f.pc];
    S.steps++; nInstr++;
    switch (I.op) {
    case IAdd: case ISub: case IMul: case IAnd: case IOr: case IXor: case IShl: case ILShr: case IAShr: {
        V a = rd(f, I.a), b = rd(f, I.b);
        if (!a.e && !b.e) {
            u64 m = maskw(I.w), r;
            switch (I.op) {
            case IAdd: r = a.c + b.c; break; case ISub: r = a.c - b.c; break; case IMul: r = a.c * b.c; break;
            case IAnd: r = a.c & b.c; break; case IOr: r = a.c | b.c; break; case IXor: r = a.c ^ b.c; break;
            case IShl: r = b.c >= I.w ? 0 : a.c << b.c; break; case ILShr: r = b.c >= I.w ? 0 : a.c >> b.c; break;
            default: r = evalOp(OAShr, I.w, I.w, a.c, b.c);
            }
            f.regs[I.dst] = cv(r & m);
        } else f.regs[I.dst] = binop(I.op, I.w, a, b);
        f.pc++; return;
    }
    case IUDiv: case ISDiv: case IURem: case ISRem: {
        V a = rd(f, I.a), b = rd(f, I.b);
        if (b.e) { if (decide(S, mkBin(OEq, b.e, mkConst(0, I.w)))) fail(S, "ub", "division by zero"); }
        else if (!b.c) fail(S, "ub", "division by zero");
        S.stack().back().regs[I.dst] = binop(I.op, I.w, a, b);
        S.stack().back().pc++; return;
    }
    case IFAdd: case IFSub: case IFMul: case IFDiv: case IFRem: f.regs[I.dst] = binop(I.op, I.w, rd(f, I.a), rd(f, I.b)); f.pc++; return;
    case IFNeg: { V a = rd(f, I.a); f.regs[I.dst] = a.e ? fromE(mkConv(OFNeg, a.e, I.w)) : cv(a.c ^ (1ull << (I.w - 1))); f.pc++; return; }
    case ICmp: {
        V a = rd(f, I.a), b = rd(f, I.b);
        if (!a.e && !b.e) f.regs[I.dst] = cv(icmpC(I.sub, I.kw, a.c, b.c));
        else f.regs[I.dst] = fromE(icmpE(I.sub, E(a, I.kw), E(b, I.kw)));
        f.pc++; return;
    }
    case IFCmp: {
        V a = rd(f, I.a), b = rd(f, I.b);
        f.regs[I.dst] = fromE(fcmpE(I.sub, E(a, I.kw), E(b, I.kw)));
        f.pc++; return;
    }
    case ISelect: {
        V c = rd(f, I.c), a = rd(f, I.a), b = rd(f, I.b);
        if (!c.e) f.regs[I.dst] = c.c ? a : b;
        else { int k = knownTruth(S.pc, c.e); if (k >= 0) f.regs[I.dst] = k ? a : b; else f.regs[I.dst] = fromE(mkIte(c.e, E(a, I.w), E(b, I.w))); }
        f.pc++; return;
    }
    case IMov: f.regs[I.dst] = rd(f, I.a); f.pc++; return;
    case IZExt: { V a = rd(f, I.a); f.regs[I.dst] = a.e ? fromE(mkZExt(a.e, I.w)) : a; f.pc++; return; }
    case ISExt: { V a = rd(f, I.a); f.regs[I.dst] = a.e ? fromE(mkSExt(a.e, I.w)) : cv((u64)sextw(a.c, I.kw) & maskw(I.w)); f.pc++; return; }
    case ITrunc: { V a = rd(f, I.a); f.regs[I.dst] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : cv(a.c & maskw(I.w)); f.pc++; return; }
    case IConv: { V a = rd(f, I.a); f.regs[I.dst] = a.e ? fromE(mkConv((Op)I.sub, a.e, I.w)) : cv(evalConv((Op)I.sub, I.w, I.kw, a.c)); f.pc++; return; }
    case ILoad: {
        V p = rd(f, I.a);
        if (I.x) p = p.e ? fromE(mkBin(OAdd, p.e, mkConst(I.x, 64))) : cv(p.c + I.x);
        V v;
        if (I.sub && raceOn(S)) {
            u64 a = getConc(S, p, 64);
            Obj* o = S.mem.get(a >> 32);
            // an initialised static never changes again so that reading its guard doesn't depend on the schedule
            if (o && o->name && !strncmp(o->name, "_ZGV", 4) && I.w == 8 && !(u32)a && loadRaw(S, a, 8).c) joinClock(S.th[S.cur].vc, S.mutexes[a].vc);
            else { atomicPoint(S); atomicLoad(S, a, I.sub & 2); }
            v = loadRaw(S, a, I.w);
        }
        else v = loadSym(S, p, I.w);
        Frame& g = S.stack().back();
        g.regs[I.dst] = v; g.pc++; return;
    }
    case IStore: {
        V p = rd(f, I.a), v = rd(f, I.b);
        u64 a = resolveAddr(S, p) + I.x;
        if (I.sub && raceOn(S)) { atomicPoint(S); atomicStore(S, a, I.sub & 2); storeRaw(S, a, v, I.w); }
        else storeAt(S, a, v, I.w);
        S.stack().back().pc++; return;
    }
    case IGep: {
        GepInfo& g = f.fn->geps[I.x];
        V p = rd(f, I.a);
        V r = p.e ? fromE(mkBin(OAdd, p.e, mkConst(g.off, 64))) : cv(p.c + g.off);
        for (size_t i = 0; i < g.idx.size(); i++) {
            V x = rd(f, g.idx[i].first); u64 sc = g.idx[i].second; u8 w = g.iw[i];
            if (!x.e && !r.e) r.c += (u64)sextw(x.c, w) * sc;
            else {
                Expr* xe = E(x, w); if (w < 64) xe = mkSExt(xe, 64);
                r = fromE(mkBin(OAdd, E(r, 64), mkBin(OMul, xe, mkConst(sc, 64))));
            }
        }
        f.regs[I.dst] = r; f.pc++; return;
    }
    case IAlloca: {
        u64 n = getConc(S, rd(f, I.a), I.kw);
        u32 id = S.mem.alloc(n * I.x, KStack, nullptr, true);
        S.mem.get(id)->tid = S.cur;
        Frame& g = S.stack().back();
        g.allocas.push_back(id); g.regs[I.dst] = cv((u64)id << 32); g.pc++; return;
    }
    case IBr: takeEdge(f, I.x); return;
    case ICondBr: {
        V c = rd(f, I.a);
        nBranches++;
        if (!c.e) { takeEdge(f, c.c ? I.x : I.y); return; }
        bool r = decide(S, c.e);
        takeEdge(S.stack().back(), r ? I.x : I.y); return;
    }
    case ISwitch: {
        SwitchInfo& si = f.fn->switches[I.x];
        V c = rd(f, I.a);
        if (c.e) {
            auto it = S.pc.conc.find(c.e);
            if (it != S.pc.conc.end()) c = cv(it->second);
        }
        if (!c.e) { auto it = si.map.find(c.c); takeEdge(f, it == si.map.end() ? si.def : it->second); return; }
        // group cases per edge, fork per feasible target
        std::map<u32, Expr*> conds; Expr* anyc = mkConst(0, 1);
        std::vector<u32> order;
        for (auto& cs : si.cases) {
            Expr* eq = mkBin(OEq, c.e, mkConst(cs.first, I.kw));
            anyc = mkBin(OOr, anyc, eq);
            if (cs.second == si.def) continue;
            auto it = conds.find(cs.second);
            if (it == conds.end()) { conds[cs.second] = eq; order.push_back(cs.second); } else it->second = mkBin(OOr, it->second, eq);
        }
        Expr* defc = mkConst(1, 1);
        for (auto& p : conds) defc = mkBin(OAnd, defc, mkNot(p.second));
        if (c.e->undef) checkUndef(S, anyc, "switch");
        nSymBranches++;
        for (u32 e : order) if (decide(S, conds[e])) { takeEdge(S.stack().back(), e); return; }
        takeEdge(S.stack().back(), si.def); return;
    }
    case IRet: {
        V r[16]; u32 n = I.n;
        if (n > 16) incomplete(S, "large return");
        for (u32 i = 0; i < n; i++) r[i] = rd(f, I.a >= 0 ? I.a + (i32)i : I.a - (i32)i);
        doReturn(S, r, n); return;
    }
    case ICall: {
        CallInfo& ci = f.fn->calls[I.x];
        FnInfo* callee = ci.callee;
        if (!callee) {
            u64 a = getConc(S, rd(f, ci.calleeOp), 64);
            if ((a >> 32) != FNOBJ || ((u32)a & 15) || ((u32)a >> 4) >= fns.size()) fail(S, "mem", "call through a bad function pointer");
            callee = fns[(u32)a >> 4];
        }
        V argb[24]; std::vector<V> big; V* args = argb; u32 n = ci.args.size();
        if (n > 24) { big.resize(n); args = big.data(); }
        Frame& g = S.stack().back();
        for (u32 i = 0; i < n; i++) args[i] = rd(g, ci.args[i]);
        if (callee->builtin) { callBuiltin(S, callee, ci, I, args, n); return; }
        if (callee->decl) incomplete(S, "call to external function " + callee->name);
        std::vector<u32> byv;
        for (u32 i = 0; i < n; i++) if (ci.byval[i]) {
            u64 src = getConc(S, args[i], 64);
            u32 id = S.mem.alloc(ci.byval[i], KStack, "byval", true);
            S.mem.get(id)->tid = S.cur;
            byv.push_back(id);
            copyBytes(S, (u64)id << 32, src, ci.byval[i]);
            args[i] = cv((u64)id << 32);
        }
        pushFrame(S, callee, args, n, ci.fixedSlots);
        for (u32 id : byv) S.stack().back().allocas.push_back(id);
        return;
    }
    case IUnreachable: fail(S, "ub", "reached unreachable code");
    case ILandingPad: {
        f.regs[I.dst] = cv(S.th[S.cur].lpPtr); f.regs[I.dst + 1] = cv(S.th[S.cur].lpSel & 0xffffffff);
        f.pc++; return;
    }
    case IResume: {
        u64 exc = getConc(S, rd(f, I.a), 64);
        Frame& g = S.stack().back();
        killFrame(S, g); S.stack().pop_back();
        if (S.stack().empty()) fail(S, "uncaught", "exception left the entry function");
        unwind(S, exc); return;
    }
    case IRmw: {
        u64 a = getConc(S, rd(f, I.a), 64);
        bool ro = raceOn(S);
        V old, v = rd(S.stack().back(), I.b), nv;
        if (ro) { atomicPoint(S); atomicRmw(S, a, I.kw & 1, I.kw & 2); }
        old = loadRaw(S, a, I.w);
        switch (I.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(IAdd, I.w, old, v); break;
        case AtomicRMWInst::Sub: nv = binop(ISub, I.w, old, v); break;
        case AtomicRMWInst::And: nv = binop(IAnd, I.w, old, v); break;
        case AtomicRMWInst::Or: nv = binop(IOr, I.w, old, v); break;
        case AtomicRMWInst::Xor: nv = binop(IXor, I.w, old, v); break;
        case AtomicRMWInst::Nand: nv = binop(IXor, I.w, binop(IAnd, I.w, old, v), cv(maskw(I.w))); break;
        case AtomicRMWInst::Max: case AtomicRMWInst::Min: case AtomicRMWInst::UMax: case AtomicRMWInst::UMin: {
            Op lt = I.sub == AtomicRMWInst::Max || I.sub == AtomicRMWInst::Min ? OSlt : OUlt;
            Expr *a1 = E(old, I.w), *b1 = E(v, I.w), *c1 = mkBin(lt, a1, b1);
            bool mx = I.sub == AtomicRMWInst::Max || I.sub == AtomicRMWInst::UMax;
            nv = fromE(mkIte(c1, mx ? b1 : a1, mx ? a1 : b1)); break;
        }
        default: incomplete(S, "atomicrmw");
        }
        storeRaw(S, a, nv, I.w);
        S.stack().back().regs[I.dst] = old; S.stack().back().pc++; return;
    }
    case ICmpXchg: {
        u64 a = getConc(S, rd(f, I.a), 64);
        bool ro = raceOn(S);
        if (ro) atomicPoint(S);
        V old = loadRaw(S, a, I.w), cmp = rd(S.stack().back(), I.b);
        bool eq = (!old.e && !cmp.e) ? old.c == cmp.c : decide(S, mkBin(OEq, E(old, I.w), E(cmp, I.w)));
        if (ro) { if (eq) atomicRmw(S, a, I.kw & 1, I.kw & 2); else atomicLoad(S, a, I.kw & 4); }
        if (eq) storeRaw(S, a, rd(S.stack().back(), I.c), I.w);
        Frame& g = S.stack().back();
        g.regs[I.dst] = old; g.regs[I.dst + 1] = cv(eq); g.pc++; return;
    }
    case IFence: if (raceOn(S)) atomicFence(S, I.kw & 1, I.kw & 2); f.pc++; return;
    case IUnsupported: incomplete(S, "unsupported instruction: " + f.fn->msgs[I.x]);
    default: incomplete(S, "bad opcode");
    }
}

// ============================ exploration ====================================
static void pathFinished(State& S) {
    nPaths++;
    for (u32 c : S.covers) coverSeen.insert(S.entry + "/" + coverNames[c]);
    if (emittedOf[S.entry]++ < 24 || (nPaths & (nPaths - 1)) == 0) {
        emit("{\"t\":\"path\",\"entry\":\"" + S.entry + "\",\"inputs\":" + inputsJson(S, S.pc.model) + ",\"obs\":" + obsJson(S, S.pc.model) + ",\"sched\":" + schedJson(S) +
             ",\"steps\":" + std::to_string(S.steps) + ",\"undef\":" + (false ? "1" : "0") + "}");
    }
}
static std::vector<pid_t> kids;
static bool isChild = false;
static double lastFork = 0;
static void openOut() {
    int k = __sync_fetch_and_add(&sh->nfile, 1);
    std::string p = outPrefix + "." + std::to_string(k) + ".jsonl";
    out = fopen(p.c_str(), "w");
    if (!out) { perror("open"); _exit(9); }
}
static void maybeSplit() {
    if (work.size() < 2 || sh->active >= maxActive) return;
    double t = now();
    if (t - lastFork < 0.03) return;
    lastFork = t;
    if (__sync_add_and_fetch(&sh->active, 1) > maxActive) { __sync_fetch_and_sub(&sh->active, 1); return; }
    fflush(out);
    size_t half = work.size() / 2;
    pid_t p = fork();
    if (p < 0) { __sync_fetch_and_sub(&sh->active, 1); return; }
    if (p == 0) {
        isChild = true; kids.clear();
        openOut();
        // statistics start from zero in the child
        nPaths = nInstr = nForks = nErr = nInfeasible = nBranches = nSymBranches = nChecks = nSwitches = 0; emittedOf.clear();
        gSt = SolverStats();
        for (auto* f : fns) f->hits = 0;
        work.resize(half);   // the oldest (shallow) half
        lastFork = now();
    } else {
        kids.push_back(p);
        work.erase(work.begin(), work.begin() + half);
    }
}
static void runState(State* S) {
    try {
        u64 n = 0;
        for (;;) {
            step(*S);
            if ((++n & 0xfff) == 0) {
                if (S->steps > maxSteps) fail(*S, "hang", "step bound exceeded");
                if (now() > deadline) incomplete(*S, "time budget exhausted");
                if (sh->stop) throw PathEnd();
                if (sh->firstViol && now() - sh->firstViol > 20) { sh->stop = 1; throw PathEnd(); }
                maybeSplit();
            }
        }
    } catch (PathEnd&) {
        if (S->pathDone) pathFinished(*S);
    }
    delete S;
}
static std::string statsJson() {
    std::string fl = "[";
    bool first = true;
    for (auto* f : fns) if (f->hits && !f->builtin) { fl += (first ? "" : ",") + ("\"" + jesc(f->name) + "\""); first = false; }
    fl += "]";
    std::string cs = "["; first = true;
    for (auto& c : coverSeen) { cs += (first ? "" : ",") + ("\"" + jesc(c) + "\""); first = false; }
    cs += "]";
    std::string cw = "["; first = true;
    for (auto& c : coverWanted) { cw += (first ? "" : ",") + ("\"" + jesc(c) + "\""); first = false; }
    cw += "]";
    char b[2048];
    snprintf(b, sizeof b, "{\"t\":\"stats\",\"paths\":%lu,\"instrs\":%lu,\"forks\":%lu,\"errors\":%lu,\"infeasible\":%lu,\"branches\":%lu,\"symbranches\":%lu,\"checks\":%lu,\"schedpoints\":%lu,"
             "\"queries\":%lu,\"fast\":%lu,\"modelhits\":%lu,\"cachehits\":%lu,\"z3calls\":%lu,\"z3sat\":%lu,\"z3unsat\":%lu,\"z3unknown\":%lu,\"asserts\":%lu,\"assertsz3\":%lu,\"z3time\":%.3f,\"z3max\":%.3f,\"exprs\":%zu,",
             nPaths, nInstr, nForks, nErr, nInfeasible, nBranches, nSymBranches, nChecks, nSwitches, gSt.queries, gSt.fast, gSt.modelHits, gSt.cacheHits, gSt.z3calls, gSt.z3sat, gSt.z3unsat, gSt.z3unknown,
             gSt.asserts, gSt.assertsZ3, gSt.z3time, gSt.z3max, exprCount());
    return std::string(b) + "\"covers\":" + cs + ",\"wanted\":" + cw + ",\"functions\":" + fl + "}";
}
static void exploreAll() {
    while (!work.empty()) {
        if (sh->stop) break;
        maybeSplit();
        State* s = work.back(); work.pop_back();
        runState(s);
    }
    __sync_fetch_and_sub(&sh->active, 1);
    emit(statsJson());
    bool bad = false;
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) emit("{\"t\":\"incomplete\",\"entry\":\"\",\"msg\":\"a worker process died\",\"where\":\"\"}");
    fflush(out);
    if (isChild) _exit(0);
}

// ============================ set-up =========================================
static void initGlobalBytes(State& S, u64 base, const Constant* C, u32 off) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C)) return;
    if (isa<UndefValue>(C)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef raw = cd->getRawDataValues(); memcpy(S.mem.get(base >> 32)->data + off, raw.data(), raw.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalBytes(S, base, cs->getOperand(i), off + sl->getElementOffset(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(C)) { u32 sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobalBytes(S, base, ca->getOperand(i), off + i * sz); return; }
    std::vector<V> l; std::vector<std::pair<u8, u32>> lv;
    if (!constLeaves(C, l)) return;
    leaves(t, lv);
    Obj* o = S.mem.get(base >> 32);
    for (size_t i = 0; i < l.size() && i < lv.size(); i++) memcpy(o->data + off + lv[i].second, &l[i].c, (lv[i].first + 7) / 8);
}
static void runConcrete(State& S, const std::string& fname) {
    FnInfo* f = fnByName[fname];
    pushFrame(S, f, nullptr, 0, 0);
    size_t w0 = work.size();
    S.entry = "init:" + fname;
    try { for (;;) { step(S); if (work.size() != w0) { fprintf(stderr, "fork in initialisation\n"); exit(9); } } }
    catch (PathEnd&) { if (!S.pathDone) { fprintf(stderr, "initialisation failed in %s: %s\n", fname.c_str(), backtrace(S).c_str()); fflush(out); } }
    if (!S.pathDone) exit(9);
    S.pathDone = false; S.th[0] = Thread(); S.th[0].vc.c = {1};
}

int main(int argc, char** argv) {
    std::string bc; std::vector<std::string> entries; double budget = 600; std::string only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "-o") outPrefix = val();
        else if (a == "-j") maxActive = atoi(val().c_str());
        else if (a == "-t") budget = atof(val().c_str());
        else if (a == "-e") entries.push_back(val());
        else if (a == "-s") maxSteps = atoll(val().c_str());
        else if (a == "-p") preemptBound = atoi(val().c_str());
        else if (a == "-z") gZ3TimeoutMs = atoi(val().c_str());
        else bc = a;
    }
    startTime = now(); deadline = startTime + budget;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->active = 1;
    openOut();
    SMDiagnostic err;
    M = parseIRFile(bc, err, LC);
    if (!M) { err.print("engine", errs()); return 9; }
    DL = &M->getDataLayout();
    for (Function& F : *M) {
        FnInfo* f = new FnInfo();
        f->F = &F; f->name = F.getName().str(); f->idx = fns.size(); f->decoded = false; f->decl = F.isDeclaration(); f->varargs = F.isVarArg();
        f->hits = 0; f->builtin = findBuiltin(f->name); f->nregs = 0; f->retSlots = 0;
        if (!f->decl && f->builtin) f->builtin = 0;   // a definition in the bitcode wins
        fns.push_back(f); fnMap[&F] = f; fnByName[f->name] = f;
    }
    State* S = new State();
    S->th.emplace_back(); S->th[0].vc.c = {1};
    S->mem.alloc(0, KExtern, "null", false);
    S->mem.alloc(fns.size() * 16, KExtern, "functions", false);
    for (GlobalVariable& G : M->globals()) {
        u64 sz = G.isDeclaration() ? std::max<u64>(64, DL->getTypeAllocSize(G.getValueType())) : (u64)DL->getTypeAllocSize(G.getValueType());
        u32 id = S->mem.alloc(sz, G.isDeclaration() ? KExtern : KGlobal, strdup(G.getName().str().c_str()), false);
        gAddr[&G] = (u64)id << 32;
        if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") siVtable = (u64)id << 32;
        if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmiVtable = (u64)id << 32;
        if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") clsVtable = (u64)id << 32;
    }
    for (GlobalVariable& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        if (G.hasInitializer()) { initGlobalBytes(*S, gAddr[&G], G.getInitializer(), 0); if (G.isConstant()) S->mem.get(gAddr[&G] >> 32)->ro = true; }
        if (G.isThreadLocal()) { Obj* o = S->mem.get(gAddr[&G] >> 32); gTlsInit[gAddr[&G] >> 32] = std::vector<u8>(o->data, o->data + o->size); }
    }
    if (auto* G = M->getNamedGlobal("llvm.global_ctors")) {
        std::vector<std::pair<u64, const Function*>> ctors;
        if (auto* ca = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : ctors) runConcrete(*S, c.second->getName().str());
    }
    if (fnByName.count("sym_setup")) runConcrete(*S, "sym_setup");
    if (entries.empty()) for (auto* f : fns) if (!f->decl && f->name.compare(0, 5, "prop_") == 0) entries.push_back(f->name);
    emit("{\"t\":\"init\",\"instrs\":" + std::to_string(nInstr) + ",\"time\":" + std::to_string(now() - startTime) + "}");
    for (size_t i = entries.size(); i-- > 0;) {
        if (!fnByName.count(entries[i])) { fprintf(stderr, "no entry %s\n", entries[i].c_str()); return 9; }
        State* n = new State(*S);
        n->entry = entries[i]; n->liveNew = 0;
        pushFrame(*n, fnByName[entries[i]], nullptr, 0, 0);
        work.push_back(n);
    }
    delete S;
    exploreAll();
    return 0;
}
