#pragma once
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>

struct V { Expr* e; u64 c; };
static inline V cv(u64 c) { return V{nullptr, c}; }

// ---- memory -----------------------------------------------------------------
enum ObjKind : u8 { KGlobal, KStack, KNew, KNewArr, KMalloc, KExc, KExtern };
struct Obj {
    int rc; u32 size; ObjKind kind; bool ro; u8 tid; bool initOwned;      // initOwned: allocated while a function-local static was being initialised
    const char* name;
    u8* data; u8* st; Expr** sym;     // st: 0 concrete, 1 symbolic, 2 undefined
};
extern Obj deadStack, deadHeap;
struct Chunk { int rc; Obj* o[256]; };
struct Mem {
    std::vector<Chunk*> chunks;
    u32 next = 0;
    Mem() {}
    Mem(const Mem& m);
    Mem& operator=(const Mem&) = delete;
    ~Mem();
    u32 alloc(u32 size, ObjKind k, const char* name, bool undef);
    Obj* get(u32 id) const { if (id >= next) return nullptr; return chunks[id >> 8]->o[id & 255]; }
    Obj* writable(u32 id);
    void kill(u32 id, Obj* tomb);
};

// ---- code -------------------------------------------------------------------
enum IOp : u8 {
    IAdd, ISub, IMul, IUDiv, ISDiv, IURem, ISRem, IAnd, IOr, IXor, IShl, ILShr, IAShr,
    IFAdd, IFSub, IFMul, IFDiv, IFRem, IFNeg, ICmp, IFCmp, ISelect, IMov,
    IZExt, ISExt, ITrunc, IConv,
    ILoad, IStore, IGep, IAlloca, IBr, ICondBr, ISwitch, IRet, ICall, IUnreachable, IResume, ILandingPad,
    IRmw, ICmpXchg, IFence, IUnsupported
};
struct FnInfo;
struct Inst {
    IOp op; u8 w, kw, sub;
    u16 n;
    i32 dst, a, b, c;
    u32 x, y;
    u32 line;
};
struct Edge { u32 target; std::vector<std::pair<i32, i32>> moves; };
struct GepInfo { u64 off; std::vector<std::pair<i32, u64>> idx; std::vector<u8> iw; };
struct CallInfo {
    FnInfo* callee; i32 calleeOp; std::vector<i32> args; std::vector<u8> argw; std::vector<u32> byval;
    u32 fixedSlots; i32 normal, unwind; u32 retSlots; std::string unsup; bool tail;
};
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; std::unordered_map<u64, u32> map; };
struct LPInfo { bool cleanup; std::vector<std::pair<bool, std::vector<u64>>> clauses; };  // (isFilter, typeinfos)
struct FnInfo {
    llvm::Function* F; std::string name; u32 idx; bool decoded; int builtin; bool decl; bool varargs;
    std::vector<Inst> code; std::vector<V> consts; std::vector<Edge> edges; std::vector<GepInfo> geps;
    std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<LPInfo> lps; std::vector<std::string> msgs;
    u32 nregs; std::vector<u8> argSlotW; u64 hits; u64 instrs; std::string srcFile; u32 retSlots;
};

struct Frame {
    FnInfo* fn; u32 pc; std::vector<V> regs; std::vector<u32> allocas; std::vector<V> va; u32 vaObj;
    u32 excOnReturn = 0;
};
struct VClock { std::vector<u32> c; };
struct Thread {
    std::vector<Frame> stack; int status = 0;   // 0 runnable, 1 blocked on mutex, 2 waiting join, 3 done
    u64 waitOn = 0;
    std::vector<u64> caught; u64 lpPtr = 0, lpSel = 0; u32 uncaught = 0, inits = 0; bool pointDone = false;
    VClock vc, acqPend, relFence;      // what relaxed loads saw, the last release fence
};
struct ExcInfo { u64 ti, dtor; int handlers; bool rethrown; u64 adj; };
struct InputRec { std::string name; char kind; std::vector<Expr*> e; u64 v; };   // kind: 'b' bytes, 'i' int, 'c' choice
struct ObsRec { std::string name; std::vector<V> bytes; };
enum { MaxThreads = 6 };
struct MutexState { i32 owner = -1; u32 count = 0; VClock vc; u32 nreaders = 0; u8 readers[MaxThreads] = { }; VClock rvc; };   // readers of a rwlock
struct Shadow { u32 wtid = ~0u, wclk = 0, wline = 0, rline = 0; FnInfo *wfn = nullptr, *rfn = nullptr; u32 r[MaxThreads] = { }; };    // one byte; r: clock of each thread's last read
typedef std::vector<Shadow> ObjShadow;      // shared between states until written

struct State {
    std::vector<Thread> th; u32 cur = 0;
    Mem mem; PathCond pc;
    std::map<u64, ExcInfo> exc;
    std::vector<InputRec> inputs; std::vector<ObsRec> obs;
    std::vector<u32> covers;
    std::vector<u32> sched;
    std::map<u64, MutexState> mutexes;
    std::unordered_map<u32, std::shared_ptr<ObjShadow>> shadow;
    std::map<std::pair<u32, u32>, u32> tls;           // (thread, variable) -> its copy
    u64 steps = 0; u32 forks = 0; u32 preempt = 0;
    i64 liveNew = 0;
    std::string entry; u32 undefCount = 0;
    bool pathDone = false;
    std::vector<Frame>& stack() { return th[cur].stack; }
};
