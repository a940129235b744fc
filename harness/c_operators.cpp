// Operators on values, and objects seen as const.
// @check C23 libs=core,prims,std entries=prop_operators,prop_unary,prop_missing quick= thorough=
// @bounds C23 34 operators x right operand given as object, const object, temporary or value x object held by mutable or const reference or stored, arbitrary 64 bit contents
// @check C24 libs=core,prims,std entries=prop_const quick=-DB_K=2 thorough=-DB_K=3
// @bounds C24 11 ways of obtaining a const value x sequences of B_K operations out of 30 kinds, arbitrary contents
#ifndef B_K
#define B_K 1
#endif
#include "types.h"
#include "types/pointer.h"
#include "types/std/vector.h"
using namespace reflect;
using namespace ht;

namespace {
uint64_t mix(unsigned op, uint64_t a, uint64_t b) { return a * 1000003 + b * 31 + op * 0x9E3779B97F4A7C15ul; }
}
namespace ht {
struct N : Counted
{
    uint64_t v; const void* arg = nullptr;
    N(uint64_t v = 0) : v(v) {}
    N(const N& o) : Counted(o), v(o.v) {}
    N(N&& o) : Counted(std::move(o)), v(o.v) { o.v = ~0ul; }
    N& operator=(const N& o) { v = o.v; return *this; }
    N& operator=(N&& o) { v = o.v; if (&o != this) o.v = ~0ul; return *this; }
#define MUT(op, k) N& operator op(const N& o) { check(); o.check(); v = mix(k, v, o.v); return *this; }
#define ARI(op, k) N operator op(const N& o) const { check(); o.check(); return N(mix(k, v, o.v)); }
#define CMP(op, k) bool operator op(const N& o) const { check(); o.check(); return mix(k, v, o.v) & 4; }
    MUT(+=, 1) MUT(-=, 2) MUT(*=, 3) MUT(/=, 4) MUT(%=, 5) MUT(&=, 6) MUT(|=, 7) MUT(^=, 8) MUT(<<=, 9) MUT(>>=, 10)
    ARI(+, 11) ARI(-, 12) ARI(*, 13) ARI(/, 14) ARI(%, 15) ARI(&, 16) ARI(|, 17) ARI(^, 18) ARI(<<, 19) ARI(>>, 20)
    CMP(==, 21) CMP(!=, 22) CMP(<, 23) CMP(>, 24) CMP(<=, 25) CMP(>=, 26) CMP(&&, 27) CMP(||, 28)
    N& operator++() { v = mix(30, v, 0); return *this; }
    N& operator--() { v = mix(31, v, 0); return *this; }
    N operator++(int x) { N o(*this); v = mix(32, v, x); return o; }
    N operator--(int x) { N o(*this); v = mix(33, v, x); return o; }
    bool operator!() const { return mix(34, v, 0) & 16; }
    N operator~() const { return N(mix(35, v, 0)); }
    uint64_t operator()(uint64_t a, uint64_t b) const { return mix(36, v, mix(0, a, b)); }
    uint64_t operator[](uint64_t i) const { return mix(37, v, i); }
    operator bool() const { return mix(38, v, 0) & 4; }
};
struct It : Counted                                   // indirection, no operator!
{
    N* n; It(N* n = nullptr) : n(n) {}
    N& operator*() const { return *n; }
    operator bool() const { return n != nullptr; }
    N& operator[](int i) const { return n[i]; }
};
}
reflectType(ht::N) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); reflectField(v); }
reflectType(ht::It) { reflectPlumbing(); reflectOperators(); reflectOpCast(bool); }

namespace {
enum { MutOps = 10, AriOps = 10, CmpOps = 8, Ops = 28 };
template<typename A> Value apply(const Value& l, unsigned op, A&& r)
{
    switch (op) {
#define OP(k, o) case k: return l o std::forward<A>(r);
    OP(0, +=) OP(1, -=) OP(2, *=) OP(3, /=) OP(4, %=) OP(5, &=) OP(6, |=) OP(7, ^=) OP(8, <<=) OP(9, >>=)
    OP(10, +) OP(11, -) OP(12, *) OP(13, /) OP(14, %) OP(15, &) OP(16, |) OP(17, ^) OP(18, <<) OP(19, >>)
#undef OP
#define OP(k, o) case k: { bool b = (l o std::forward<A>(r)); return Value(bool(b)); }
    OP(20, ==) OP(21, !=) OP(22, <) OP(23, >) OP(24, <=) OP(25, >=) OP(26, &&) OP(27, ||)
#undef OP
    }
    return Value();
}
}

extern "C" void prop_operators()
{
    preload(); type<N>();
    uint64_t x = sym_u(64, "x"), y = sym_u(64, "y");
    unsigned op = sym_choose(Ops, "operator"), how = sym_choose(3, "left"), rhs = sym_choose(5, "right");
    {
        N a(x), b(y); const N &ca = a, &cb = b;
        Value l = how == 0 ? Value(a) : how == 1 ? Value(ca) : Value(N(x));
        const void* lo = l.value();
        Value r; bool refuse = op < MutOps && how == 1;
        sym_cover(refuse ? "refused" : "runs");
        long live = Counted::live;
        bool err = raises([&] {
            if (rhs == 0) r = apply(l, op, b); else if (rhs == 1) r = apply(l, op, cb); else if (rhs == 2) r = apply(l, op, N(y));
            else if (rhs == 3) { Value w(b); r = apply(l, op, w); } else r = apply(l, op, Value(cb)); });
        sym_check(err == refuse, "an operator works iff it's allowed on the object");
        if (rhs != 2) sym_check(b.v == y, "the right operand is left unchanged");
        uint64_t now = l.get<N>().v;
        if (refuse) { sym_check(now == x && Counted::live == live, "a refused operator changes nothing"); }
        else if (op < MutOps) {
            sym_check(now == mix(op + 1, x, y), "effect of the assignment operator");
            sym_check(r.value() == lo && !r.isStored() && !r.isConst(), "the result refers to the object");
            sym_check(how == 2 || a.v == now, "the value refers to the object");
        }
        else if (op < MutOps + AriOps) {
            sym_check(now == x && r.isStored() && r.get<N>().v == mix(op + 1, x, y), "result of the operator");
        }
        else sym_check(now == x && r.get<bool>() == bool(mix(op + 1, x, y) & 4), "result of the comparison");
    }
    sym_check(Counted::live == 0, "leak");
}

extern "C" void prop_unary()
{
    preload(); type<N>(); type<It>();
    uint64_t x = sym_u(64, "x"), y = sym_u(64, "y"), z = sym_u(64, "z");

    {
        N a(x); const N& ca = a; bool cst = sym_choose(2, "const");
        Value v = cst ? Value(ca) : Value(a);
        Value r; bool err = false;
        switch (sym_choose(14, "operator")) {
        case 0: err = raises([&] { r = ++v; }); sym_check(err == cst, "++v"); if (!err) sym_check(a.v == mix(30, x, 0) && r.value() == &a, "prefix increment"); break;
        case 1: err = raises([&] { r = --v; }); sym_check(err == cst, "--v"); if (!err) sym_check(a.v == mix(31, x, 0) && r.value() == &a, "prefix decrement"); break;
        case 2: err = raises([&] { r = v++; }); sym_check(err == cst, "v++"); if (!err) sym_check(a.v == mix(32, x, 0) && r.isStored() && r.get<N>().v == x, "postfix increment"); break;
        case 3: err = raises([&] { r = v--; }); sym_check(err == cst, "v--"); if (!err) sym_check(a.v == mix(33, x, 0) && r.isStored() && r.get<N>().v == x, "postfix decrement"); break;
        case 4: sym_check(!v == bool(mix(34, x, 0) & 16), "logical not"); break;
        case 5: sym_check((~v).get<N>().v == mix(35, x, 0), "complement"); break;
        case 6: sym_check(v(y, z).get<uint64_t>() == mix(36, x, mix(0, y, z)), "call"); break;
        case 7: sym_check(v[y].get<uint64_t>() == mix(37, x, y), "index"); break;
        case 8: sym_check(bool(v) == bool(mix(38, x, 0) & 4), "bool"); break;
        case 9: err = raises([&] { v.assign(N(y)); }); sym_check(err == cst, "assignment to a const object"); if (!err) sym_check(a.v == y, "assignment"); break;
        case 10: { It it(&a); Value w(it); Value d = *w; sym_check(d.value() == &a && d.isConst() == false && d.type() == type<N>(), "indirection"); break; }
        case 11: { It it(sym_choose(2, "null") ? nullptr : &a); Value w(it); sym_check(bool(w) == (it.n != nullptr) && !w == (it.n == nullptr), "bool and not of a class without operator!"); break; }
        case 12: { N arr[3] = { N(x), N(y), N(z) }; It it(arr); Value w(it); int k = sym_choose(3, "index"); Value d = w[k]; sym_check(d.value() == &arr[k] && d.get<N>().v == (k == 0 ? x : k == 1 ? y : z), "index by reference"); break; }
        default: { Value w((N(y))); v = w; sym_check(a.v == x, "assigning a value isn't assigning its content"); break; }
        }
        if (cst || err) sym_check(a.v == x, "a const object changed");
    }
    sym_check(Counted::live == 0, "leak");
}

extern "C" void prop_missing()
{
    preload(); type<N>(); type<It>();
    uint64_t x = sym_u(64, "x");
    {
        P p(x); P q(x); N n(x); U u; It it(&n);
        Value vp(p), vn(n), vi(it);
        unsigned op = sym_choose(Ops + 7, "operator");
        Value r;
        if (op < Ops) {
            sym_check(raises([&] { r = apply(vp, op, q); }), "class without the operator");
            sym_check(raises([&] { r = apply(vi, op, it); }), "class without the operator");
            sym_check(raises([&] { r = apply(vn, op, u); }), "operand of another class");
            Value none; sym_check(raises([&] { r = apply(none, op, n); }), "operator on nothing");
        }
        else switch (op - Ops) {
            case 0: sym_check(raises([&] { r = ++vp; }), "missing"); break; case 1: sym_check(raises([&] { r = vp.operator--(1); }), "missing"); break;
            case 2: sym_check(raises([&] { r = ~vp; }), "missing"); break; case 3: sym_check(raises([&] { r = *vp; }), "missing"); break;
            case 4: sym_check(raises([&] { r = vp(x); }), "missing"); break; case 5: sym_check(raises([&] { r = vp[x]; }), "missing"); break;
            default: sym_check(raises([&] { bool b = bool(vp); sym_check(!b, ""); }) && raises([&] { bool b = !vp; sym_check(b, ""); }), "missing"); break;
        }
        sym_check(p.p == int64_t(x) && n.v == x && it.n == &n && r.isVoid(), "a missing operator has no effect");
    }
    sym_check(Counted::live == 0, "leak");
}

/* ------------------------------------------------------------- const ------------------------------------------------------------- */

namespace ht {
struct K : N
{
    P part; std::vector<int64_t> list; N* ptr;
    K(uint64_t v = 0) : N(v), part(int64_t(v)), ptr(nullptr) {}
    void set(int64_t x) { v = x; }
    uint64_t get() const { return v; }
    uint64_t both() { v++; return 1; }
};
struct Box { const K inner; K open; const K& peek() const { return open; } Box(uint64_t a, uint64_t b) : inner(a), open(b) {} };
}
reflectType(ht::K)
{
    reflectParent(ht::N);
    reflectPlumbing(); reflectField(part); reflectField(list); reflectField(ptr);
    reflectFn(set); reflectFn(get); reflectFn(both);
    type_->addFunction("both", [](const K& k) -> uint64_t { return k.v; });
}
reflectType(ht::Box) { reflectField(inner); reflectField(open); reflectFn(peek); }
namespace {
void takeRef(K& k) { k.v = 1; } void takeBase(N& k) { k.v = 1; } void takeRR(K&& k) { k.v = 1; } uint64_t takeConst(const K& k) { return k.v; } uint64_t takeCopy(K k) { k.v++; k.part.p ^= 1; return k.v; }
uint64_t takeConstRR(const K&& k) { return k.v; }
struct Content { uint64_t v; int64_t p; int64_t l[2]; size_t n; const void* q; };
Content content(const K& k) { k.check(); k.part.check(); Content c = { k.v, k.part.p, { k.list[0], k.list[1] }, k.list.size(), k.ptr }; return c; }
bool same(const Content& a, const Content& b) { return a.v == b.v && a.p == b.p && a.l[0] == b.l[0] && a.l[1] == b.l[1] && a.n == b.n && a.q == b.q; }
void refuse(bool raised) { sym_check(raised, "a modification through a const value is refused"); }
#define REFUSE(x) refuse(raises([&] { x; }))
void fill(K& k, uint64_t v, int64_t p, int64_t a, int64_t b, N* q) { k.v = v; k.part.p = p; k.list.clear(); k.list.push_back(a); k.list.push_back(b); k.ptr = q; }
}
extern "C" void prop_const()
{
    preload(); type<N>(); type<K>(); type<Box>();
    uint64_t x = sym_u(64, "x"), y = sym_u(64, "y"), z = sym_u(64, "z");
    int64_t p = sym_i64("p"), a = sym_i64("a"), b = sym_i64("b");
    {
        N other(y); K k; fill(k, x, p, a, b, &other); const K& ck = k;
        Box box(x, x); fill(const_cast<K&>(box.inner), x, p, a, b, &other); fill(box.open, x, p, a, b, &other); const Box& cbox = box;
        K* kp = &k; K* const ckp = &k;
        Value v; const K* obj = &k;
        Value owner{K(k)};
        switch (sym_choose(11, "origin")) {
        case 0: v = Value(ck); break;
        case 1: v = Value(k).toConst(); break;
        case 2: { Value w(ck); v = w; break; }
        case 3: v = Value(box).field("inner"); obj = &box.inner; break;
        case 4: v = Value(cbox).field("open"); obj = &box.open; break;
        case 5: v = Value(box).call<Value>("peek"); obj = &box.open; break;
        case 6: v = *Value(ckp); break;
        case 7: v = *Value(kp).toConst(); break;
        case 8: v = Value(ck).rvalue(); break;
        case 9: v = owner.toConst(); obj = (const K*) owner.value(); break;
        default: v = owner.toConst().rvalue(); obj = (const K*) owner.value(); break;
        }
        sym_check(v.isConst() && v.value() == obj && v.type() == type<K>(), "a const view of the object");
        const Content before = content(*obj), otherBefore = before;
        Function fr("f", &takeRef), fb("f", &takeBase), frr("f", &takeRR), fc("f", &takeConst), fcp("f", &takeCopy), fcrr("f", &takeConstRR);
        for (int step = 0; step < B_K; ++step) {
            unsigned op = sym_choose(30, "operation");
            sym_cover(op < 22 ? "modifies" : "reads");
            switch (op) {
            case 0: REFUSE(v.call<void>("set", p)); break;
            case 1: REFUSE(fr.call<void>(v)); break;
            case 2: REFUSE(fb.call<void>(v)); break;
            case 3: REFUSE(frr.call<void>(v)); break;
            case 4: REFUSE(v.assign(K(z))); break;
            case 5: { K w(z); REFUSE(v.assign(w)); break; }
            case 6: REFUSE(v += N(z)); break;
            case 7: REFUSE(++v); break;
            case 8: REFUSE(v.operator--(1)); break;
            case 9: REFUSE(v.field("v").assign(z)); break;
            case 10: REFUSE(v.field("part").call<void>("set", p)); break;
            case 11: REFUSE(v.field("part").field("p").assign(a)); break;
            case 12: REFUSE(v.field("list").call<void>("push_back", a)); break;
            case 13: REFUSE(v.field("list").call<void>("clear")); break;
            case 14: REFUSE(v.field("list")[size_t(0)]); break;
            case 15: REFUSE(v.field("list").call<Value>("at", size_t(1)).assign(a)); break;
            case 16: REFUSE(v.field("ptr").assign((N*)nullptr)); break;
            case 17: REFUSE(cast<K&>(v)); break;
            case 18: REFUSE(cast<N&>(v)); break;
            case 19: REFUSE((*v.field("ptr")).assign(N(z))); break;
            case 20: REFUSE(v.field<P&>("part")); break;
            case 21: REFUSE(v.rvalue().call<void>("set", p)); break;
            case 22: { Value w = v; Value m = w.move(); sym_check(m.value() != obj && same(content(m.get<K>()), before), "moving out of a const object copies it"); break; }
            case 23: { Value c = v.copy(); c.call<void>("set", p); sym_check(c.get<K>().v == uint64_t(p), "a copy of a const object is mutable"); break; }
            case 24: sym_check(v.call<uint64_t>("get") == x, "const member function"); break;
            case 25: sym_check(fc.call<uint64_t>(v) == x && &cast<const K&>(v) == obj, "const reference"); break;
            case 26: sym_check(fcp.call<uint64_t>(v) == x + 1, "by value"); break;
            case 27: sym_check((v + N(z)).get<N>().v == mix(11, x, z) && (v == N(z)) == bool(mix(21, x, z) & 4), "const operators"); break;
            case 28: sym_check(v.call<uint64_t>("both") == x && v.field("list").call<Value>("at", size_t(1)).get<int64_t>() == b, "const overload and const element"); break;
            default: {
                Value w; w = v; K c(z); Value t(c); t.assign(v);
                sym_check(c.v == x && c.part.p == p, "assigning from a const object");
                if (v.refType() == RefType::RValue) sym_check(fcrr.call<uint64_t>(v) == x, "const r-value");
                break;
            }
            }
            sym_check(same(content(*obj), before) && other.v == y, "the object seen as const is unchanged");
        }
        sym_check(same(content(k), otherBefore), "other object");
    }
    sym_check(Counted::live == 0, "leak");
}
