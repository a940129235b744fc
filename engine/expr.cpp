#include "expr.h"
#include <map>
#include <set>

std::vector<VarInfo> gVars;
std::vector<Expr*> gVarExprs;
static std::vector<Expr*> table(1 << 16, nullptr);
static size_t nExprs = 0;
static u32 gStamp = 1;

size_t exprCount() { return nExprs; }

// ---- variable sets (hash-consed sorted vectors) -----------------------------
struct VVHash { size_t operator()(const VarVec* v) const { size_t h = 1469598103934665603ull; for (u32 x : *v) h = (h ^ x) * 1099511628211ull; return h; } };
struct VVEq { bool operator()(const VarVec* a, const VarVec* b) const { return *a == *b; } };
static std::unordered_map<const VarVec*, const VarVec*, VVHash, VVEq> vvTable;
static const VarVec* internVV(VarVec&& v) {
    auto it = vvTable.find(&v);
    if (it != vvTable.end()) return it->second;
    auto* n = new VarVec(std::move(v));
    vvTable.emplace(n, n);
    return n;
}
static const VarVec* emptyVV() { static const VarVec* e = internVV({}); return e; }
struct PHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ ((size_t)p.second >> 3) * 0xC2B2AE3D27D4EB4Full; } };
static std::unordered_map<std::pair<const void*, const void*>, const VarVec*, PHash> mergeMemo;
static const VarVec* mergeVV(const VarVec* a, const VarVec* b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair((const void*)a, (const void*)b);
    auto it = mergeMemo.find(key);
    if (it != mergeMemo.end()) return it->second;
    VarVec r; r.reserve(a->size() + b->size());
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    return mergeMemo[key] = internVV(std::move(r));
}

static u64 hashNode(Op op, unsigned w, u64 c, Expr* a, Expr* b, Expr* d) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(c); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(d ? d->id + 1 : 0);
    return h;
}
static void rehash() {
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    for (Expr* e : table) while (e) { Expr* n = e->nextHash; size_t i = e->hash & (nt.size() - 1); e->nextHash = nt[i]; nt[i] = e; e = n; }
    table.swap(nt);
}
static Expr* node(Op op, unsigned w, u64 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    u64 h = hashNode(op, w, c, a, b, d);
    for (Expr* e = table[h & (table.size() - 1)]; e; e = e->nextHash)
        if (e->hash == h && e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
    static char* pool = nullptr; static size_t left = 0;
    if (left < sizeof(Expr)) { left = 1 << 20; pool = (char*)malloc(left); }
    Expr* e = (Expr*)pool; pool += sizeof(Expr); left -= sizeof(Expr);
    memset((void*)e, 0, sizeof(Expr));
    e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->nk = (a != nullptr) + (b != nullptr) + (d != nullptr);
    e->id = (u32)nExprs++; e->hash = h;
    e->vars = emptyVV();
    for (int i = 0; i < 3; i++) if (e->k[i]) { e->vars = mergeVV(e->vars, e->k[i]->vars); e->undef |= e->k[i]->undef; }
    size_t i = h & (table.size() - 1);
    e->nextHash = table[i]; table[i] = e;
    if (nExprs > table.size() * 2) rehash();
    return e;
}

Expr* mkConst(u64 v, unsigned w) { return node(OConst, w, v & maskw(w)); }
Expr* mkVar(const std::string& name, unsigned w, bool undef) {
    u32 id = gVars.size();
    gVars.push_back({name, (u8)w, undef});
    Expr* e = node(OVar, w, id);
    VarVec v{id};
    e->vars = internVV(std::move(v));
    e->undef = undef;
    gVarExprs.push_back(e);
    return e;
}

static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static u64 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }

u64 evalOp(Op op, unsigned w, unsigned kw, u64 a, u64 b) {
    u64 m = maskw(kw);
    a &= m; b &= m;
    switch (op) {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: return b ? a / b : m;
    case OURem: return b ? a % b : a;
    case OSDiv: {
        i64 x = sextw(a, kw), y = sextw(b, kw);
        if (!y) return x >= 0 ? m : 1;
        if (y == -1) return (0 - (u64)x) & m;
        return (u64)(x / y) & m;
    }
    case OSRem: {
        i64 x = sextw(a, kw), y = sextw(b, kw);
        if (!y) return a;
        if (y == -1) return 0;
        return (u64)(x % y) & m;
    }
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= kw ? 0 : (a << b) & m;
    case OLShr: return b >= kw ? 0 : a >> b;
    case OAShr: return (u64)(sextw(a, kw) >> (b >= kw ? (kw > 63 ? 63 : kw - 1) : b)) & m;
    case OEq: return a == b;
    case OUlt: return a < b;
    case OUle: return a <= b;
    case OSlt: return sextw(a, kw) < sextw(b, kw);
    case OSle: return sextw(a, kw) <= sextw(b, kw);
    case OFAdd: return kw == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case OFSub: return kw == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case OFMul: return kw == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case OFDiv: return kw == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case OFRem: return kw == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
    case OFEq: return kw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case OFLt: return kw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case OFLe: return kw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case OFUno: return kw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    default: abort();
    }
}
u64 evalConv(Op op, unsigned w, unsigned kw, u64 a) {
    switch (op) {
    case OFNeg: return a ^ (1ull << (kw - 1));
    case OFToSI: { double d = kw == 64 ? asD(a) : asF(a); if (std::isnan(d)) return 0; if (d >= 9.3e18) return INT64_MAX & maskw(w); if (d <= -9.3e18) return (u64)INT64_MIN & maskw(w); return (u64)(i64)d & maskw(w); }
    case OFToUI: { double d = kw == 64 ? asD(a) : asF(a); if (std::isnan(d) || d < 0) return 0; if (d >= 1.85e19) return maskw(w); return (u64)d & maskw(w); }
    case OSIToF: { i64 x = sextw(a, kw); return w == 64 ? fromD((double)x) : fromF((float)x); }
    case OUIToF: return w == 64 ? fromD((double)a) : fromF((float)a);
    case OFToF: if (kw == w) return a; return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
    default: abort();
    }
}

Expr* mkNot(Expr* a) {
    assert(a->w == 1);
    return mkBin(OXor, a, mkConst(1, 1));
}

static bool isCommut(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w);
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case OConst: return mkConst(a->c >> lo, w);
    case OExtract: return mkExtract(a->k[0], a->c + lo, w);
    case OConcat: {
        unsigned lw = a->k[1]->w;
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case OZExt: {
        unsigned kw = a->k[0]->w;
        if (lo >= kw) return mkConst(0, w);
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case OSExt: {
        unsigned kw = a->k[0]->w;
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkSExt(a->k[0], w);
        break;
    }
    case OIte:
        if (isConst(a->k[1]) || isConst(a->k[2]))
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case OAnd: case OOr: case OXor:
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case OAdd: case OSub: case OMul:
        if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case OShl:
        if (isConst(a->k[1])) {
            u64 s = a->k[1]->c;
            if (s < a->w) {
                if (lo >= s) return mkExtract(a->k[0], lo - s, w);
                if (lo + w <= s) return mkConst(0, w);
            }
        }
        break;
    case OLShr:
        if (isConst(a->k[1])) {
            u64 s = a->k[1]->c;
            if (s < a->w && lo + s + w <= a->w) return mkExtract(a->k[0], lo + s, w);
        }
        break;
    default: break;
    }
    return node(OExtract, w, lo, a);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isConst(hi) && isConst(lo) && w <= 64) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isFalse(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
        return mkExtract(hi->k[0], lo->c, w);
    if (hi->op == OExtract && hi->c >= lo->w && mkExtract(hi->k[0], hi->c - lo->w, lo->w) == lo) return mkExtract(hi->k[0], hi->c - lo->w, w); // the low part was simplified
    if (hi->op == OExtract && hi->k[0] == lo && hi->c == lo->w) return mkExtract(lo, 0, w); // unreachable widths guard
    // concat(extract(x,..), concat(extract(x,..), rest))
    if (lo->op == OConcat && hi->op == OExtract && lo->k[0]->op == OExtract && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == OZExt && w <= 128) {
        // concat(zext(x), lo) = zext(concat(x,lo))
        return mkZExt(mkConcat(hi->k[0], lo), w);
    }
    return node(OConcat, w, 0, hi, lo);
}

Expr* mkZExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (isConst(a) && w <= 64) return mkConst(a->c, w);
    if (a->op == OZExt) return mkZExt(a->k[0], w);
    if (a->op == OIte && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return node(OZExt, w, 0, a);
}
Expr* mkSExt(Expr* a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (isConst(a) && w <= 64) return mkConst((u64)sextw(a->c, a->w), w);
    if (a->op == OSExt) return mkSExt(a->k[0], w);
    if (a->op == OZExt) return mkZExt(a->k[0], w);
    if (a->op == OIte && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return node(OSExt, w, 0, a);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    assert(c->w == 1 && a->w == b->w);
    if (isConst(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkBin(OOr, c, b);
        if (isFalse(a)) return mkBin(OAnd, mkNot(c), b);
        if (isTrue(b)) return mkBin(OOr, mkNot(c), a);
        if (isFalse(b)) return mkBin(OAnd, c, a);
    }
    if (c->op == OXor && isTrue(c->k[1])) return mkIte(c->k[0], b, a);
    if (b->op == OIte && b->k[0] == c) b = b->k[2];
    if (a->op == OIte && a->k[0] == c) a = a->k[1];
    if (a == b) return a;
    return node(OIte, a->w, 0, c, a, b);
}

Expr* mkConv(Op op, Expr* a, unsigned w) {
    if (isConst(a)) return mkConst(evalConv(op, w, a->w, a->c), w);
    if (op == OFToF && a->w == w) return a;
    // integers of at most 53 bits convert exactly to double and back
    if (op == OUIToF && w == 64 && a->op == OZExt && a->k[0]->w < 53) return mkConv(OSIToF, a, w);
    if (op == OUIToF && w == 64 && a->w < 53) return mkConv(OSIToF, mkZExt(a, 64), w);
    if (op == OSIToF && w == 64 && a->w <= 53) return mkConv(OSIToF, mkSExt(a, 64), w);
    if ((op == OFToSI || op == OFToUI) && a->op == OSIToF && a->w == 64) {
        Expr* i = a->k[0];
        if ((i->op == OSExt && i->k[0]->w <= 53) || (i->op == OZExt && i->k[0]->w <= 52)) {
            if (op == OFToSI || i->op == OZExt) {
                if (i->w == w) return i;
                if (w < 64 && i->k[0]->w < w) return i->op == OZExt ? mkZExt(i->k[0], w) : mkSExt(i->k[0], w);
            }
        }
    }
    return node(op, w, 0, a);
}

// upper bound on the magnitude of a double computed from integers and constants, which is then not
// a nan either; infinity when there is none
static double fpBound(Expr* e) {
    const double inf = HUGE_VAL;
    if (e->w != 64) return inf;
    double a, b;
    switch (e->op) {
    case OConst: a = asD(e->c); return std::isfinite(a) ? std::fabs(a) : inf;
    case OSIToF: case OUIToF: return e->k[0]->w <= 64 ? 18446744073709551616.0 : inf;
    case OFNeg: return fpBound(e->k[0]);
    case OZExt: return e->k[0]->op == OExtract && e->k[0]->c == 0 && e->k[0]->w == 63 ? fpBound(e->k[0]->k[0]) : inf; // fabs
    case OIte: a = fpBound(e->k[1]); b = fpBound(e->k[2]); return a > b ? a : b;
    case OFAdd: case OFSub: a = (fpBound(e->k[0]) + fpBound(e->k[1])) * 2; return a < 1e300 ? a : inf;
    case OFMul: a = fpBound(e->k[0]); b = fpBound(e->k[1]); if (!(a < 1e300 && b < 1e300)) return inf; a = a * b * 2; return a < 1e300 ? a : inf;
    case OFDiv: if (!isConst(e->k[1])) return inf; b = std::fabs(asD(e->k[1]->c)); if (!(b >= 1 && b < 1e300)) return inf; return fpBound(e->k[0]);
    default: return inf;
    }
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    bool cmp = (op >= OEq && op <= OSle) || (op >= OFEq && op <= OFUno);
    unsigned rw = cmp ? 1 : w;
    if (isConst(a) && isConst(b) && w <= 64) return mkConst(evalOp(op, rw, w, a->c, b->c), rw);
    if (isCommut(op)) {
        if (isConst(a)) std::swap(a, b);
        else if (!isConst(b) && a->id > b->id) std::swap(a, b);
    }
    // NaN payloads aside, float addition and multiplication commute
    if ((op == OFAdd || op == OFMul || op == OFEq || op == OFUno) && a->id > b->id) std::swap(a, b);
    if (op >= OFEq && op <= OFUno && w == 64) { // comparing converted integers is comparing the integers
        auto exact = [](Expr* e) { if (e->op != OSIToF) return false; Expr* i = e->k[0]; return (i->op == OSExt && i->k[0]->w <= 53) || (i->op == OZExt && i->k[0]->w <= 52); };
        if (exact(a) && exact(b) && a->k[0]->w == b->k[0]->w) {
            Expr *x = a->k[0], *y = b->k[0];
            if (op == OFEq) return mkBin(OEq, x, y);
            if (op == OFLt) return mkBin(OSlt, x, y);
            if (op == OFLe) return mkBin(OSle, x, y);
            if (op == OFUno) return mkConst(0, 1);
        }
        bool ca = isConst(a) && std::isfinite(asD(a->c)), cb = isConst(b) && std::isfinite(asD(b->c));
        if ((exact(a) && cb) || (exact(b) && ca)) {
            Expr* i = exact(a) ? a->k[0] : b->k[0];
            double c = exact(a) ? asD(b->c) : asD(a->c);
            if (c > 1e17) c = 1e17; // beyond every exact integer
            if (c < -1e17) c = -1e17;
            auto k = [&](double v) { return mkConst((u64)(int64_t)v & maskw(i->w), i->w); };
            if (i->w == 64) {
                if (op == OFEq) return c == std::floor(c) ? mkBin(OEq, i, k(c)) : mkConst(0, 1);
                if (op == OFLt) return exact(a) ? mkBin(OSlt, i, k(std::ceil(c))) : mkBin(OSlt, k(std::floor(c)), i);
                if (op == OFLe) return exact(a) ? mkBin(OSle, i, k(std::floor(c))) : mkBin(OSle, k(std::ceil(c)), i);
            }
        }
        if (op == OFUno && (exact(a) || isConst(a)) && (exact(b) || isConst(b)) && !(isConst(a) && std::isnan(asD(a->c))) && !(isConst(b) && std::isnan(asD(b->c)))) return mkConst(0, 1);
    }
    if (op == OFUno && w == 64 && std::isfinite(fpBound(a)) && std::isfinite(fpBound(b))) return mkConst(0, 1);
    if ((op == OFEq || op == OFLe) && w == 64 && a == b && std::isfinite(fpBound(a))) return mkConst(1, 1);
    if (op == OFLt && w == 64 && a == b) return mkConst(0, 1);
    if (op == OFEq && w == 64 && ((isConst(a) && std::isinf(asD(a->c)) && std::isfinite(fpBound(b))) || (isConst(b) && std::isinf(asD(b->c)) && std::isfinite(fpBound(a))))) return mkConst(0, 1);
    u64 m = maskw(w);
    bool wide = w > 64;
    if (!wide) switch (op) {
    case OAdd:
        if (isConst(b) && b->c == 0) return a;
        if (isConst(b) && a->op == OSub && isConst(a->k[0])) return mkBin(OSub, mkConst(a->k[0]->c + b->c, w), a->k[1]);
        if (isConst(b) && a->op == OAdd && isConst(a->k[1])) return mkBin(OAdd, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == OAdd && isConst(a->k[1]) && !isConst(b)) return mkBin(OAdd, mkBin(OAdd, a->k[0], b), a->k[1]);
        if (b->op == OAdd && isConst(b->k[1])) return mkBin(OAdd, mkBin(OAdd, a, b->k[0]), b->k[1]);
        break;
    case OSub:
        if (a == b) return mkConst(0, w);
        if (isConst(b)) return mkBin(OAdd, a, mkConst(0 - b->c, w));
        if (isConst(a) && b->op == OSub && isConst(b->k[0])) return mkBin(OAdd, b->k[1], mkConst(a->c - b->k[0]->c, w));
        if (isConst(a) && b->op == OAdd && isConst(b->k[1])) return mkBin(OSub, mkConst(a->c - b->k[1]->c, w), b->k[0]);
        break;
    case OMul:
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if (a->op == OMul && isConst(a->k[1])) return mkBin(OMul, a->k[0], mkConst(a->k[1]->c * b->c, w));
        }
        break;
    case OUDiv: if (isConst(b) && b->c == 1) return a; break;
    case OSDiv: if (isConst(b) && b->c == 1) return a; break;
    case OAnd:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->op == OAnd && isConst(a->k[1])) return mkBin(OAnd, a->k[0], mkConst(a->k[1]->c & b->c, w));
            if (a->op == OZExt) {
                unsigned kw = a->k[0]->w;
                return mkZExt(mkBin(OAnd, a->k[0], mkConst(b->c, kw)), w);
            }
            // low mask -> zext(extract)
            if (((b->c + 1) & b->c) == 0 && w > 1) {
                unsigned n = 64 - __builtin_clzll(b->c);
                return mkZExt(mkExtract(a, 0, n), w);
            }
        }
        if (w == 1) {
            if (b->op == OXor && isTrue(b->k[1]) && b->k[0] == a) return mkConst(0, 1);
            if (a->op == OXor && isTrue(a->k[1]) && a->k[0] == b) return mkConst(0, 1);
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(op, a->k[0], b->k[0]), w);
        break;
    case OOr:
        if (a == b) return a;
        if (isConst(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w == 1) {
            if (b->op == OXor && isTrue(b->k[1]) && b->k[0] == a) return mkConst(1, 1);
            if (a->op == OXor && isTrue(a->k[1]) && a->k[0] == b) return mkConst(1, 1);
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(op, a->k[0], b->k[0]), w);
        // or(zext x, shl(zext y, k)) with k >= width(x): concat
        for (int i = 0; i < 2; i++) {
            Expr* x = i ? b : a; Expr* y = i ? a : b;
            if (x->op == OZExt && y->op == OShl && isConst(y->k[1]) && y->k[1]->c < w && y->k[1]->c >= x->k[0]->w) {
                unsigned s = y->k[1]->c;
                return mkConcat(mkExtract(y->k[0], 0, w - s), mkZExt(x->k[0], s));
            }
        }
        break;
    case OXor:
        if (a == b) return mkConst(0, w);
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (a->op == OXor && isConst(a->k[1])) return mkBin(OXor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
            if (w == 1 && b->c == 1) {
                if (a->op == OUlt) return mkBin(OUle, a->k[1], a->k[0]);
                if (a->op == OUle) return mkBin(OUlt, a->k[1], a->k[0]);
                if (a->op == OSlt) return mkBin(OSle, a->k[1], a->k[0]);
                if (a->op == OSle) return mkBin(OSlt, a->k[1], a->k[0]);
            }
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkZExt(mkBin(op, a->k[0], b->k[0]), w);
        break;
    case OShl: case OLShr: case OAShr:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c >= w && op != OAShr) return mkConst(0, w);
            if (op == OLShr) {
                if (a->op == OConcat || a->op == OZExt || a->op == OExtract) return mkZExt(mkExtract(a, b->c, w - b->c), w);
            }
            if (op == OAShr && a->op == OZExt) return mkBin(OLShr, a, b);
            if (op == OShl && a->op == OShl && isConst(a->k[1])) {
                u64 s = a->k[1]->c + b->c; if (s >= w) return mkConst(0, w);
                return mkBin(OShl, a->k[0], mkConst(s, w));
            }
        }
        if (isConst(a) && a->c == 0) return a;
        break;
    case OEq:
        if (a == b) return mkConst(1, 1);
        if (w == 1 && isConst(b)) return b->c ? a : mkNot(a);
        if (isConst(b)) {
            if (a->op == OZExt) {
                unsigned kw = a->k[0]->w;
                if (b->c >> kw) return mkConst(0, 1);
                return mkBin(OEq, a->k[0], mkConst(b->c, kw));
            }
            if (a->op == OSExt) {
                unsigned kw = a->k[0]->w;
                if (((u64)sextw(b->c, kw) & m) != b->c) return mkConst(0, 1);
                return mkBin(OEq, a->k[0], mkConst(b->c, kw));
            }
            if (a->op == OConcat) {
                unsigned lw = a->k[1]->w;
                return mkBin(OAnd, mkBin(OEq, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(OEq, a->k[1], mkConst(b->c, lw)));
            }
            if (a->op == OAdd && isConst(a->k[1])) return mkBin(OEq, a->k[0], mkConst(b->c - a->k[1]->c, w));
            if (a->op == OXor && isConst(a->k[1])) return mkBin(OEq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
            if (a->op == OIte && (isConst(a->k[1]) || isConst(a->k[2]))) {
                return mkIte(a->k[0], mkBin(OEq, a->k[1], b), mkBin(OEq, a->k[2], b));
            }
            if (a->op == OSub && b->c == 0) return mkBin(OEq, a->k[0], a->k[1]);
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkBin(OEq, a->k[0], b->k[0]);
        if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return mkBin(OEq, a->k[0], b->k[0]);
        break;
    case OUlt: case OUle:
        if (a == b) return mkConst(op == OUle, 1);
        if (isConst(b)) {
            if (op == OUlt && b->c == 0) return mkConst(0, 1);
            if (op == OUle && b->c == m) return mkConst(1, 1);
            if (op == OUle && b->c == 0) return mkBin(OEq, a, b);
            if (op == OUlt && b->c == 1) return mkBin(OEq, a, mkConst(0, w));
            if (a->op == OZExt) {
                unsigned kw = a->k[0]->w;
                if (b->c >> kw) return mkConst(1, 1);
                return mkBin(op, a->k[0], mkConst(b->c, kw));
            }
            if (a->op == OIte && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if (isConst(a)) {
            if (op == OUlt && a->c == m) return mkConst(0, 1);
            if (op == OUle && a->c == 0) return mkConst(1, 1);
            if (b->op == OZExt) {
                unsigned kw = b->k[0]->w;
                if (a->c >> kw) return mkConst(0, 1);
                return mkBin(op, mkConst(a->c, kw), b->k[0]);
            }
            if (b->op == OIte && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        break;
    case OSlt: case OSle:
        if (a == b) return mkConst(op == OSle, 1);
        if (isConst(b)) {
            i64 bc = sextw(b->c, w);
            if (a->op == OZExt) {
                unsigned kw = a->k[0]->w;
                if (bc < 0) return mkConst(0, 1);
                if ((u64)bc >> kw) return mkConst(1, 1);
                return mkBin(op == OSlt ? OUlt : OUle, a->k[0], mkConst(b->c, kw));
            }
            if (a->op == OSExt) {
                unsigned kw = a->k[0]->w;
                i64 lo = -(i64)(1ull << (kw - 1)), hi = (i64)(1ull << (kw - 1)) - 1;
                if (bc > hi) return mkConst(1, 1);
                if (bc < lo) return mkConst(0, 1);
                return mkBin(op, a->k[0], mkConst(b->c, kw));
            }
            if (a->op == OIte && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if (isConst(a)) {
            i64 ac = sextw(a->c, w);
            if (b->op == OZExt) {
                unsigned kw = b->k[0]->w;
                if (ac < 0) return mkConst(1, 1);
                if ((u64)ac >> kw) return mkConst(0, 1);
                return mkBin(op == OSlt ? OUlt : OUle, mkConst(a->c, kw), b->k[0]);
            }
            if (b->op == OSExt) {
                unsigned kw = b->k[0]->w;
                i64 lo = -(i64)(1ull << (kw - 1)), hi = (i64)(1ull << (kw - 1)) - 1;
                if (ac > hi) return mkConst(0, 1);
                if (ac < lo) return mkConst(1, 1);
                return mkBin(op, mkConst(a->c, kw), b->k[0]);
            }
            if (b->op == OIte && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
        }
        if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkBin(op == OSlt ? OUlt : OUle, a->k[0], b->k[0]);
        if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        break;
    default: break;
    }
    else {
        if (op == OEq && a == b) return mkConst(1, 1);
    }
    return node(op, rw, 0, a, b);
}

// ---- evaluation ------------------------------------------------------------
void bumpEval() { gStamp++; }
static u64 ev(Expr* e, const Model& m) {
    if (e->op == OConst) return e->c;
    if (e->stamp == gStamp) return e->val;
    u64 r;
    switch (e->op) {
    case OVar: r = e->c < m.size() ? m[e->c] & maskw(e->w) : 0; break;
    case OIte: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case OConcat: r = e->w <= 64 ? (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m) : ev(e->k[1], m); break;
    case OExtract: r = (ev(e->k[0], m) >> e->c) & maskw(e->w); break;
    case OZExt: r = ev(e->k[0], m); break;
    case OSExt: r = (u64)sextw(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case OFNeg: case OFToSI: case OFToUI: case OSIToF: case OUIToF: case OFToF:
        r = evalConv(e->op, e->w, e->k[0]->w, ev(e->k[0], m)); break;
    default: { u64 a = ev(e->k[0], m), b = ev(e->k[1], m); r = evalOp(e->op, e->w, e->k[0]->w, a, b); }
    }
    e->stamp = gStamp; e->val = r;
    return r;
}
u64 evalExpr(Expr* e, const Model& m) { gStamp++; return ev(e, m); }

const Bits256* truthSet(Expr* e) {
    if (e->truth) return e->truth;
    assert(e->w == 1 && e->vars->size() == 1);
    u32 v = (*e->vars)[0];
    unsigned w = gVars[v].w;
    assert(w <= 8);
    Bits256* t = new Bits256(); memset(t, 0, sizeof *t);
    Model m(v + 1, 0);
    for (unsigned i = 0; i < (1u << w); i++) { m[v] = i; if (evalExpr(e, m)) t->set(i); }
    return e->truth = t;
}

static const char* opNames[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fneg","feq","flt","fle","funo","ftosi","ftoui","sitof","uitof","ftof"};
std::string exprStr(Expr* e, int d) {
    if (e->op == OConst) return std::to_string(e->c) + ":" + std::to_string(e->w);
    if (e->op == OVar) return gVars[e->c].name + (e->undef ? "?" : "");
    if (!d) return "...";
    std::string s = "(" + std::string(opNames[e->op]);
    if (e->op == OExtract) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
    for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
    return s + ")";
}

static Expr* renameRec(Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
    if (!e->undef) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r;
    switch (e->op) {
    case OVar: {
        static std::unordered_map<Expr*, Expr*> primed;
        Expr*& p = primed[e];
        if (!p) p = mkVar(gVars[e->c].name + "'", e->w, true);
        r = p; break;
    }
    case OIte: r = mkIte(renameRec(e->k[0], memo), renameRec(e->k[1], memo), renameRec(e->k[2], memo)); break;
    case OConcat: r = mkConcat(renameRec(e->k[0], memo), renameRec(e->k[1], memo)); break;
    case OExtract: r = mkExtract(renameRec(e->k[0], memo), e->c, e->w); break;
    case OZExt: r = mkZExt(renameRec(e->k[0], memo), e->w); break;
    case OSExt: r = mkSExt(renameRec(e->k[0], memo), e->w); break;
    case OFNeg: case OFToSI: case OFToUI: case OSIToF: case OUIToF: case OFToF: r = mkConv(e->op, renameRec(e->k[0], memo), e->w); break;
    default: r = mkBin(e->op, renameRec(e->k[0], memo), renameRec(e->k[1], memo));
    }
    return memo[e] = r;
}
Expr* renameUndef(Expr* e) { std::unordered_map<Expr*, Expr*> memo; return renameRec(e, memo); }
