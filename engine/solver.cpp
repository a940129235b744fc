#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>

SolverStats gSt;
unsigned gZ3TimeoutMs = 60000;

static Z3_context ctx = nullptr;
static bool z3err = false;
static void onErr(Z3_context c, Z3_error_code e) { z3err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, onErr);
}

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast b2bv(Z3_ast b) {
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
}
static Z3_ast bv2b(Z3_ast b) { return Z3_mk_eq(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static bool usesFp = false;

// Width-1 expressions are translated to Bool, the rest to bit-vectors.
static Z3_ast tr(Expr* e);
static Z3_ast trBV(Expr* e) { Z3_ast a = tr(e); return e->w == 1 ? b2bv(a) : a; }
static Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, trBV(e), fpSort(e->w)); }

static Z3_ast tr(Expr* e) {
    if (e->op >= OFAdd) usesFp = true;
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    bool b1 = e->w == 1;
    auto A = [&] { return trBV(e->k[0]); };
    auto B = [&] { return trBV(e->k[1]); };
    switch (e->op) {
    case OConst: r = b1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
    case OVar: {
        Z3_symbol s = Z3_mk_int_symbol(ctx, e->c);
        r = Z3_mk_const(ctx, s, b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
        break;
    }
    case OAnd: case OOr: case OXor:
        if (b1) {
            Z3_ast x[2] = {tr(e->k[0]), tr(e->k[1])};
            if (e->op == OXor && isTrue(e->k[1])) r = Z3_mk_not(ctx, x[0]);
            else r = e->op == OAnd ? Z3_mk_and(ctx, 2, x) : e->op == OOr ? Z3_mk_or(ctx, 2, x) : Z3_mk_xor(ctx, x[0], x[1]);
        } else r = e->op == OAnd ? Z3_mk_bvand(ctx, A(), B()) : e->op == OOr ? Z3_mk_bvor(ctx, A(), B()) : Z3_mk_bvxor(ctx, A(), B());
        break;
    case OEq:
        if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, tr(e->k[0]), tr(e->k[1]));
        else r = Z3_mk_eq(ctx, A(), B());
        break;
    case OUlt: r = Z3_mk_bvult(ctx, A(), B()); break;
    case OUle: r = Z3_mk_bvule(ctx, A(), B()); break;
    case OSlt: r = Z3_mk_bvslt(ctx, A(), B()); break;
    case OSle: r = Z3_mk_bvsle(ctx, A(), B()); break;
    case OIte: r = Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
    case OFEq: r = Z3_mk_fpa_eq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case OFLt: r = Z3_mk_fpa_lt(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case OFLe: r = Z3_mk_fpa_leq(ctx, fp(e->k[0]), fp(e->k[1])); break;
    case OFUno: {
        Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->k[0])), Z3_mk_fpa_is_nan(ctx, fp(e->k[1]))};
        r = Z3_mk_or(ctx, 2, x); break;
    }
    default: {
        // bit-vector valued
        Z3_ast rm = e->op >= OFAdd ? Z3_mk_fpa_round_nearest_ties_to_even(ctx) : nullptr;
        switch (e->op) {
        case OAdd: r = Z3_mk_bvadd(ctx, A(), B()); break;
        case OSub: r = Z3_mk_bvsub(ctx, A(), B()); break;
        case OMul: r = Z3_mk_bvmul(ctx, A(), B()); break;
        case OUDiv: r = Z3_mk_bvudiv(ctx, A(), B()); break;
        case OSDiv: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
        case OURem: r = Z3_mk_bvurem(ctx, A(), B()); break;
        case OSRem: r = Z3_mk_bvsrem(ctx, A(), B()); break;
        case OShl: r = Z3_mk_bvshl(ctx, A(), B()); break;
        case OLShr: r = Z3_mk_bvlshr(ctx, A(), B()); break;
        case OAShr: r = Z3_mk_bvashr(ctx, A(), B()); break;
        case OConcat: r = Z3_mk_concat(ctx, A(), B()); break;
        case OExtract: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, A()); break;
        case OZExt: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, A()); break;
        case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, A()); break;
        case OFAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, fp(e->k[0]), fp(e->k[1]))); break;
        case OFSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, fp(e->k[0]), fp(e->k[1]))); break;
        case OFMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, fp(e->k[0]), fp(e->k[1]))); break;
        case OFDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, fp(e->k[0]), fp(e->k[1]))); break;
        case OFRem: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, fp(e->k[0]), fp(e->k[1]))); break;
        case OFNeg: r = Z3_mk_bvxor(ctx, A(), Z3_mk_unsigned_int64(ctx, 1ull << (e->w - 1), Z3_mk_bv_sort(ctx, e->w))); break;
        case OFToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_round_toward_zero(ctx), fp(e->k[0]), e->w); break;
        case OFToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_round_toward_zero(ctx), fp(e->k[0]), e->w); break;
        case OSIToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, A(), fpSort(e->w))); break;
        case OUIToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, A(), fpSort(e->w))); break;
        case OFToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, fp(e->k[0]), fpSort(e->w))); break;
        default: abort();
        }
        if (b1) r = bv2b(r);
    }
    }
    e->z3 = keep(r);
    return r;
}

static bool hasFp(Expr* e) {
    static std::unordered_map<Expr*, bool> memo;
    if (e->op >= OFAdd) return true;
    if (!e->nk) return false;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool r = false;
    for (int i = 0; i < e->nk; i++) if (hasFp(e->k[i])) { r = true; break; }
    return memo[e] = r;
}

// ---- z3 query with caches ---------------------------------------------------
struct KeyHash { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ull; for (u32 x : v) h = (h ^ x) * 1099511628211ull; return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::vector<u32>, CacheEnt, KeyHash> qcache;

static SatRes z3solve(const std::vector<Expr*>& cs, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& out) {
    init();
    std::vector<u32> key;
    for (Expr* e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = qcache.find(key);
    if (it != qcache.end()) { gSt.cacheHits++; out = it->second.m; return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    bool fpq = false;
    for (Expr* e : cs) fpq |= hasFp(e);
    z3err = false;
    Z3_solver s = fpq ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gZ3TimeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (Expr* e : cs) Z3_solver_assert(ctx, s, tr(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    gSt.z3calls++;
    CacheEnt ent;
    if (z3err) r = Z3_L_UNDEF;
    if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (u32 v : vars) {
            Z3_ast val = nullptr; u64 x = 0;
            Expr* ve = gVarExprs[v];
            if (Z3_model_eval(ctx, m, tr(ve), true, &val) && val) {
                if (ve->w == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
                else { uint64_t y = 0; Z3_get_numeral_uint64(ctx, val, &y); x = y; }
            }
            ent.m.push_back({v, x});
        }
        Z3_model_dec_ref(ctx, m);
        ent.r = RSat; gSt.z3sat++;
    } else if (r == Z3_L_FALSE) { ent.r = RUnsat; gSt.z3unsat++; }
    else { ent.r = RUnknown; gSt.z3unknown++; }
    Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSt.z3time += dt; if (dt > gSt.z3max) gSt.z3max = dt;
    if (dt > 2 && getenv("ENG_SLOWQ")) {
        fprintf(stderr, "slow query %.2fs:\n", dt);
        for (Expr* e : cs) fprintf(stderr, "   %s\n", exprStr(e, 20).c_str());
    }
    out = ent.m;
    if (qcache.size() > 200000) qcache.clear();
    qcache[key] = ent;
    return ent.r;
}

static bool intersects(const VarVec& a, const std::vector<char>& mark) { for (u32 v : a) if (mark[v]) return true; return false; }

std::unordered_map<Expr*, Definition> gDefinitions;

static void slice(PathCond& pc, Expr* c, bool defs, std::vector<Expr*>& use, std::vector<u32>& vars) {
    std::vector<char> mark(gVars.size(), 0);
    auto add = [&](const VarVec& vv) { for (u32 v : vv) if (!mark[v]) { mark[v] = 1; vars.push_back(v); } };
    add(*c->vars);
    use.push_back(c);
    std::vector<char> taken(pc.cs.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < pc.cs.size(); i++)
            if (!taken[i] && intersects(*pc.cs[i]->vars, mark)) {
                taken[i] = 1;
                if (!defs && gDefinitions.count(pc.cs[i])) continue;
                use.push_back(pc.cs[i]); size_t n = vars.size(); add(*pc.cs[i]->vars); if (vars.size() != n) ch = true;
            }
    }
}

static SatRes sliceSolve(PathCond& pc, Expr* c, Model* out) {
    std::vector<u32> vars;
    std::vector<Expr*> use;
    slice(pc, c, true, use, vars);
    bool defs = false;
    if (!gDefinitions.empty()) for (Expr* e : use) if (gDefinitions.count(e)) { defs = true; break; }
    if (defs) { // without the definitions: fewer constraints, so no model here means no model at all
        std::vector<Expr*> use1; std::vector<u32> vars1; std::vector<std::pair<u32, u64>> m1;
        slice(pc, c, false, use1, vars1);
        SatRes r = z3solve(use1, vars1, m1);
        if (r == RUnsat) return r;
        if (r == RSat) {
            Model m = pc.model;
            if (m.size() < gVars.size()) m.resize(gVars.size(), 0);
            for (auto& p : m1) m[p.first] = p.second;
            for (Expr* e : use) {
                auto it = gDefinitions.find(e);
                if (it == gDefinitions.end()) continue;
                std::string t = std::to_string(evalExpr(it->second.v, m));
                if (t.size() == it->second.digits.size()) for (size_t i = 0; i < t.size(); i++) m[it->second.digits[i]->c] = t[i] - '0';
            }
            bool ok = true;
            for (Expr* e : use) if (!evalExpr(e, m)) { ok = false; break; }
            if (ok) { if (out) *out = m; return RSat; }
        }
    }
    std::vector<std::pair<u32, u64>> m;
    SatRes r = z3solve(use, vars, m);
    if (r == RSat && out) {
        *out = pc.model;
        if (out->size() < gVars.size()) out->resize(gVars.size(), 0);
        for (auto& p : m) (*out)[p.first] = p.second;
        for (Expr* e : use) if (!evalExpr(e, *out)) {
            // FP NaN payloads can make the evaluation disagree; report unknown rather than a bogus model
            if (!hasFp(e)) { fprintf(stderr, "engine: model does not satisfy constraint %s\n", exprStr(e, 12).c_str()); abort(); }
        }
    }
    return r;
}

static bool isFastVar(Expr* c) { return c->vars->size() == 1 && gVars[(*c->vars)[0]].w <= 8; }

int knownTruth(PathCond& pc, Expr* c) {
    if (isConst(c)) return c->c ? 1 : 0;
    if (isFastVar(c)) {
        Bits256* d = pc.domain((*c->vars)[0]);
        if (!d) return -1;
        Bits256 t = *truthSet(c) & *d;
        if (t.empty()) return 0;
        return t == *d ? 1 : -1;
    }
    Expr* n = mkNot(c);
    for (Expr* e : pc.cs) { if (e == c) return 1; if (e == n) return 0; }
    return -1;
}

SatRes maySat(PathCond& pc, Expr* c, Model* out) {
    gSt.queries++;
    if (isConst(c)) { if (c->c && out) *out = pc.model; return c->c ? RSat : RUnsat; }
    if (evalExpr(c, pc.model)) { gSt.modelHits++; if (out) *out = pc.model; return RSat; }
    if (isFastVar(c)) {
        u32 v = (*c->vars)[0];
        Bits256 t = *truthSet(c);
        if (Bits256* d = pc.domain(v)) t = t & *d;
        if (t.empty()) { gSt.fast++; return RUnsat; }
        if (!pc.isEntangled(v)) {
            gSt.fast++;
            if (out) { *out = pc.model; if (out->size() <= v) out->resize(gVars.size(), 0); (*out)[v] = t.first(); }
            return RSat;
        }
    }
    return sliceSolve(pc, c, out);
}

SatRes maySatZ3(PathCond& pc, Expr* c, Model* out) {
    gSt.asserts++;
    if (isConst(c)) { if (c->c && out) *out = pc.model; return c->c ? RSat : RUnsat; }
    gSt.assertsZ3++;
    return sliceSolve(pc, c, out);
}

void addConstraint(PathCond& pc, Expr* c, const Model* nm) {
    if (isConst(c)) return;
    if (nm) pc.model = *nm;
    pc.cs.push_back(c);
    if (isFastVar(c)) {
        u32 v = (*c->vars)[0];
        Bits256* d = pc.domain(v);
        if (d) *d = *d & *truthSet(c);
        else pc.dom.push_back({v, *truthSet(c)});
    } else {
        for (u32 v : *c->vars) {
            auto it = std::lower_bound(pc.entangled.begin(), pc.entangled.end(), v);
            if (it == pc.entangled.end() || *it != v) pc.entangled.insert(it, v);
        }
    }
    if (c->op == OEq && isConst(c->k[1])) pc.conc[c->k[0]] = c->k[1]->c;
}
