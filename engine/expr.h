// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <cassert>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef int32_t i32;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= maskw(w);
    return (i64)((v ^ m) - m);
}

enum Op : u8 {
    OConst, OVar,
    OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
    OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle,
    OIte, OConcat, OExtract, OZExt, OSExt,
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFNeg,
    OFEq, OFLt, OFLe, OFUno,          // ordered compares, unordered test (width 1)
    OFToSI, OFToUI, OSIToF, OUIToF, OFToF,
    OLast
};

struct Bits256 {
    u64 w[4];
    bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    int count() const { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(w[i]); return n; }
    Bits256 operator&(const Bits256& o) const { return {{w[0]&o.w[0], w[1]&o.w[1], w[2]&o.w[2], w[3]&o.w[3]}}; }
    Bits256 operator~() const { return {{~w[0], ~w[1], ~w[2], ~w[3]}}; }
    bool operator==(const Bits256& o) const { return !memcmp(w, o.w, sizeof w); }
};
static inline Bits256 fullBits(unsigned width) {
    Bits256 b; memset(&b, 0, sizeof b);
    for (unsigned i = 0; i < (1u << width); i++) b.set(i);
    return b;
}

typedef std::vector<u32> VarVec;

struct Expr {
    Op op; u8 w; bool undef; u8 nk;
    u32 id;
    u64 c;                 // constant value / var id / extract low bit
    Expr* k[3];
    const VarVec* vars;    // sorted
    // evaluation cache
    u32 stamp; u64 val;
    Bits256* truth;        // for width-1 expressions over one var of <= 8 bits
    void* z3;              // Z3_ast
    Expr* nextHash; u64 hash;
};

struct VarInfo { std::string name; u8 w; bool undef; };
extern std::vector<VarInfo> gVars;
extern std::vector<Expr*> gVarExprs;

Expr* mkConst(u64 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w, bool undef = false);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkNot(Expr* a);                 // width 1
Expr* mkConv(Op op, Expr* a, unsigned w);
static inline bool isConst(const Expr* e) { return e->op == OConst; }
static inline bool isTrue(const Expr* e) { return e->op == OConst && e->c == 1; }
static inline bool isFalse(const Expr* e) { return e->op == OConst && e->c == 0; }

u64 evalOp(Op op, unsigned w, unsigned kw, u64 a, u64 b);   // binary ops on constants (w: result width, kw: kid width)
u64 evalConv(Op op, unsigned w, unsigned kw, u64 a);

typedef std::vector<u64> Model;       // indexed by var id; missing => 0
u64 evalExpr(Expr* e, const Model& m);
void bumpEval();
const Bits256* truthSet(Expr* e);     // e width 1, exactly one var with w<=8
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();
// substitute undef variables by fresh copies
Expr* renameUndef(Expr* e);
