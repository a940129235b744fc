// Casts and conversions of values.
// @check C12 libs=core,prims,std entries=prop_cast,prop_convert,prop_same,prop_own_base quick= thorough=
// @bounds C12 10 held types x 5 ways of holding them x 21 targets; arbitrary contents; a class and its child with operators to themselves and their base class
#include "types.h"
using namespace reflect;
using namespace ht;
namespace ht {
struct X2 : X { explicit X2(int64_t v = 0) : X(v) {} };
struct X3 : X2 { explicit X3(int64_t v = 0) : X2(v) {} operator int() const { return int(~x); } };
struct X4 : X { explicit X4(int64_t v = 0) : X(v) {} };
struct X5 : X4 { explicit X5(int64_t v = 0) : X4(v) {} };
inline X other(const X4& o) { return X(~o.x); }
inline X4 another(const X4& o) { return X4(~o.x); }
}
reflectType(ht::X4) { reflectParent(ht::X); reflectPlumbing(); reflectCustom(operator ht::X()) (const ht::X4& o) -> ht::X { return other(o); }; reflectCustom(operator ht::X4()) (const ht::X4& o) -> ht::X4 { return another(o); }; }
reflectType(ht::X5) { reflectParent(ht::X4); reflectPlumbing(); }
reflectType(ht::X2) { reflectParent(ht::X); reflectPlumbing(); }
reflectType(ht::X3) { reflectParent(ht::X2); reflectPlumbing(); reflectOpCast(int); }

namespace {
enum Id { I_P, I_C, I_U, I_X, I_X2, I_X3, I_NC, I_NE, I_Int, I_Void };
template<typename T> struct IdOf;
#define ID(T, I) template<> struct IdOf<T> { enum { id = I }; };
ID(P, I_P) ID(C, I_C) ID(U, I_U) ID(X, I_X) ID(X2, I_X2) ID(X3, I_X3) ID(NoCopy, I_NC) ID(Neither, I_NE) ID(int, I_Int)
#undef ID
bool childOf(int a, int b) { return a == b || (a == I_C && b == I_P) || (a == I_X2 && b == I_X) || (a == I_X3 && (b == I_X || b == I_X2)); }
bool converts(int a, int b) { return (a == I_X || a == I_X2 || a == I_X3) && (b == I_P || b == I_Int); }
bool copiable(int t) { return t != I_NC && t != I_NE && t != I_Void; }
bool movable(int t) { return t != I_NE && t != I_Void; }

int64_t val(const P& o) { o.check(); return o.p; }
int64_t val(const U& o) { o.check(); return o.u; }
int64_t val(const X& o) { return o.x; }
int64_t val(const NoCopy& o) { o.check(); return o.v; }
int64_t val(const Neither& o) { o.check(); return o.v; }
int64_t val(int i) { return i; }
void setv(P& o, int64_t x) { o.p = x; } void setv(U& o, int64_t x) { o.u = x; } void setv(X& o, int64_t x) { o.x = x; }
void setv(NoCopy& o, int64_t x) { o.v = x; } void setv(Neither& o, int64_t x) { o.v = x; } void setv(int& o, int64_t x) { o = int(x); }

int64_t converted(int held, int target, int64_t x) { return target == I_Int ? int64_t(int(held == I_X3 ? ~x : x)) : x; }

struct State { Value v; int held; bool cst; bool rval; int64_t x; };

template<typename T> void castTo(State& s)
{
    typedef typename std::decay<T>::type K; const int t = IdOf<K>::id;
    const bool lref = std::is_lvalue_reference<T>::value, rref = std::is_rvalue_reference<T>::value, cst = std::is_const<typename std::remove_reference<T>::type>::value;
    bool child = childOf(s.held, t), conv = converts(s.held, t), ok;
    if (lref) ok = child && (cst || (!s.cst && !s.rval));
    else if (rref) ok = movable(t) && (child || conv);
    else ok = copiable(t) && (child || conv);
    sym_cover(ok ? "succeeds" : "refused");
    void* held = s.v.value();
    bool says = isCastable<T>(s.v);
    long live = Counted::live, copies = Counted::copies;
    bool err = raises([&] {
        auto&& r = cast<T>(s.v);
        if (lref) sym_check((void*)&r == held, "a reference target yields the held object");
        else sym_check((void*)&r != held, "other targets yield another object");
        sym_check(val(r) == (child ? s.x : converted(s.held, t, s.x)), "content of the result");
    });
    sym_check(err == !ok, "cast succeeds iff C++ allows it");
    sym_check(!err || s.held == I_Void || s.v.value() == held, "a refused cast changes nothing");
    sym_check(Counted::live == live, "leak");
    if (lref || err) sym_check(Counted::copies == copies, "no copy is made");
    if (!s.rval && says && (lref || rref || copiable(t))) sym_check(!err, "castable but the cast fails");
}
template<typename H, typename T> void check(H& obj, State& s)
{
    castTo<T>(s);
    // by value and const targets leave the object as it was, unless it's given up as an r-value
    const bool rref = std::is_rvalue_reference<T>::value;
    if (!rref && !(s.rval && !s.cst) && !(s.v.isStored())) sym_check(val(obj) == s.x, "the object is left unchanged");
}
template<typename H> void hold(H obj_)
{
    H& obj = obj_;
    State s; s.held = IdOf<H>::id; s.x = val(obj); const H& cobj = obj;
    unsigned how = sym_choose(std::is_move_constructible<H>::value ? 5 : 4, "how");
    s.cst = how == 1 || how == 3; s.rval = how == 2 || how == 3;
    switch (how) {
    case 0: s.v = Value(obj); break; case 1: s.v = Value(cobj); break; case 2: s.v = Value(obj).rvalue(); break; case 3: s.v = Value(obj).toConst(); break;
    default: s.v = Value(std::move(obj)); break;
    }
    switch (sym_choose(21, "target")) {
    case 0: check<H, P>(obj, s); break; case 1: check<H, P&>(obj, s); break; case 2: check<H, const P&>(obj, s); break; case 3: check<H, P&&>(obj, s); break;
    case 4: check<H, C>(obj, s); break; case 5: check<H, C&>(obj, s); break; case 6: check<H, const C&>(obj, s); break; case 7: check<H, C&&>(obj, s); break;
    case 8: check<H, int>(obj, s); break; case 9: check<H, int&>(obj, s); break; case 10: check<H, const int&>(obj, s); break; case 11: check<H, int&&>(obj, s); break;
    case 12: check<H, X>(obj, s); break; case 13: check<H, X&>(obj, s); break; case 14: check<H, const X2&>(obj, s); break;
    case 15: check<H, NoCopy&>(obj, s); break; case 16: check<H, NoCopy&&>(obj, s); break; case 17: check<H, const Neither&>(obj, s); break; case 18: check<H, Neither&>(obj, s); break;
    case 19: check<H, U>(obj, s); break; default: check<H, const P&&>(obj, s); break;
    }
}
template<> void hold<Neither>(Neither);
}

extern "C" void prop_cast()
{
    preload(); type<X2>(); type<X3>();
    sym_expect("succeeds"); sym_expect("refused");
    int64_t x = sym_i64("x");
    switch (sym_choose(10, "held")) {
    case I_P: hold(P(x)); break; case I_C: hold(C(x, x)); break; case I_X: hold(X(x)); break; case I_X2: hold(X2(x)); break; case I_X3: hold(X3(x)); break;
    case I_U: { U u; u.u = x; hold(u); break; }
    case I_NC: hold(NoCopy(x)); break; case I_Int: hold(int(x)); break;
    case I_NE: {
        Neither n; n.v = x; const Neither& c = n; State s; s.held = I_NE; s.x = x;
        unsigned how = sym_choose(4, "how"); s.cst = how & 1; s.rval = how & 2;
        s.v = how == 0 ? Value(n) : how == 1 ? Value(c) : how == 2 ? Value(n).rvalue() : Value(n).toConst();
        switch (sym_choose(4, "target")) { case 0: castTo<Neither&>(s); break; case 1: castTo<const Neither&>(s); break; case 2: castTo<P&>(s); break; default: castTo<const U&>(s); break; }
        sym_check(n.v == x, "object changed");
        break;
    }
    default: {
        State s; s.held = I_Void; s.x = x; s.cst = s.rval = false;
        switch (sym_choose(6, "target")) { case 0: castTo<P&>(s); break; case 1: castTo<const P&>(s); break; case 2: castTo<P>(s); break; case 3: castTo<P&&>(s); break; case 4: castTo<int>(s); break; default: castTo<const int&>(s); break; }
        break;
    }
    }
    sym_check(Counted::live == 0, "leak");
}

extern "C" void prop_convert()
{
    preload(); type<X2>(); type<X3>();
    int64_t x = sym_i64("x");
    const Type* ts[] = { type<P>(), type<C>(), type<U>(), type<X>(), type<X2>(), type<X3>(), type<NoCopy>(), type<Neither>(), type<int>(), type<void>(), type<Value>(), type<std::string>() };
    unsigned a = sym_choose(12, "from"), b = sym_choose(12, "to");
    bool want = converts(a, b);
    sym_check(ts[a]->hasConverter(ts[b]) == want, "a converter is reported iff one is declared, in the class or a base class");
    sym_check(raises([&] { ts[a]->converter(ts[b]); }) == !want, "looking up a converter");
    if (!want) return;
    X o1(x); X2 o2(x); X3 o3(x);
    unsigned cst = sym_choose(2, "const");
    Value v = a == I_X ? Value(o1) : a == I_X2 ? Value(o2) : Value(o3);
    if (cst) v = v.toConst();
    int64_t w = converted(a, b, x);
    if (b == I_P) { P p = v.convert<P>(ts[b]); sym_check(p.p == w, "converted object"); }
    else sym_check(v.convert<int>(ts[b]) == int(w), "converted number");
    Value r = v.convert<Value>(ts[b]);
    sym_check(r.isStored() && r.type() == ts[b] && (b == I_P ? r.get<P>().p == w : r.get<int>() == int(w)), "converted value");
    sym_check(o1.x == x && o2.x == x && o3.x == x, "converting leaves the object unchanged");
}

extern "C" void prop_same()
{
    preload();
    int64_t x = sym_i64("x");
    {
        P p(x); const P& cp = p;
        sym_check(&cast<P&>(p) == &p && &cast<const P&>(cp) == &p, "casting to the same type");
        Value a = cast<Value>(p), b = cast<Value>(cp), c = cast<Value>(P(x));
        sym_check(a.value() == &p && !a.isConst() && b.value() == &p && b.isConst() && c.isStored() && c.get<P>().p == x, "casting to a value");
        Value d = cast<Value>(a);
        sym_check(d.value() == &p && d.type() == type<P>() && &cast<Value>(a) == &a, "casting a value to a value doesn't nest");
        sym_check(isCastable<P&>(p) && isCastable<Value>(p) && isCastable<Value>(a), "castable");
    }
    sym_check(Counted::live == 0, "leak");
}

// as in C++ conversion operators to the own class or a base class are never used by a cast
extern "C" void prop_own_base()
{
    preload();
    int64_t x = sym_i64("x");
    X4 a(x); X5 b(x);
    unsigned which = sym_choose(2, "which"), cst = sym_choose(2, "const");
    Value v = which ? Value(b) : Value(a);
    if (cst) v = v.toConst();
    X r = cast<X>(v); X4 r4 = cast<X4>(v);
    sym_check(r.x == x && r4.x == x, "a base class is copied rather than converted to");
    sym_check(((const X&)cast<const X&>(v)).x == x && (void*)&cast<const X4&>(v) == v.value(), "references to a base class");
    if (!cst) { Value w = which ? Value(b) : Value(a); X&& rr = cast<X&&>(w.rvalue()); sym_check(rr.x == x, "a base class is moved rather than converted to"); }
    Function byRef("f", [] (const X& o) { return o.x; }), byVal("g", [] (X o) { return o.x; });
    sym_check(byRef.call<int64_t>(v) == x && byVal.call<int64_t>(v) == x && isCastable<X>(v) && isCastable<const X&>(v), "functions of the base class accept the object itself");
    sym_check(v.convert<X>(type<X>()).x == ~x, "an explicit conversion uses the operator");
    sym_check(a.x == x && b.x == x, "objects are left unchanged");
}
