// Delivery of arguments to and of results from reflected calls.
// @check C03 libs=core,prims,std entries=prop_args,prop_order,prop_noncopy_args,prop_refused,prop_member quick= thorough=
// @bounds C03 4 callable kinds (function pointer, functor, const and mutable member function) x 7 parameter kinds x 16 ways of passing an argument, up to 5 parameters, arbitrary 64 bit contents
// @check C04 libs=core,prims,std entries=prop_return,prop_lifetime,prop_discard quick= thorough=
// @bounds C04 16 returned kinds x 13 requested kinds; results owned by up to 3 values released in every order; arbitrary contents
#include "types.h"
#include "types/pointer.h"
using namespace reflect;
using namespace ht;

namespace {
enum Callable { F_Fn, F_Functor, F_Member, F_ConstMember, F_N };
struct Probe { const void* addr; const void* self; int64_t seen, k, put; long calls, copies, moves; } probe;

template<typename T> void poke(T& o, std::false_type) { o.p = probe.put; }
template<typename T> void poke(T&, std::true_type) {}
template<typename T> int64_t enter(int64_t k, T&& o)
{
    typedef typename std::remove_reference<T>::type C;
    o.check();
    probe.addr = &o; probe.seen = o.p; probe.k = k; probe.calls++;
    probe.copies = Counted::copies; probe.moves = Counted::moves;
    poke(o, typename std::is_const<C>::type());
    return int64_t(uint64_t(k) + 1);
}
template<typename T> int64_t freeFn(int64_t k, T o) { return enter(k, static_cast<typename std::conditional<std::is_reference<T>::value, T, T&>::type>(o)); }
template<typename T> struct Functor
{
    Counted alive; int64_t state;
    explicit Functor(int64_t s) : state(s) {}
    int64_t operator()(int64_t k, T o) const { alive.check(); probe.self = (void*)uintptr_t(state); return freeFn<T>(k, std::forward<T>(o)); }
};
struct Target : Counted
{
    int64_t state = 0;
    template<typename T> int64_t call(int64_t k, T o) { check(); probe.self = this; state = k; return freeFn<T>(k, std::forward<T>(o)); }
    template<typename T> int64_t ccall(int64_t k, T o) const { check(); probe.self = this; return freeFn<T>(k, std::forward<T>(o)); }
};
}
reflectType(Target) { reflectPlumbing(); }

namespace {
template<typename T> Function makeFn(unsigned callable)
{
    switch (callable) {
    case F_Fn: return Function("f", &freeFn<T>);
    case F_Functor: return Function("f", Functor<T>(77));
    case F_Member: return Function("f", &Target::call<T>);
    default: return Function("f", &Target::ccall<T>);
    }
}
enum { K_P, K_CP, K_CPR, K_PR, K_PRR, K_CPRR, K_C, K_N };
struct Desc { int type; RefType ref; bool cst; };       // type: 0 P, 1 C, 2 U
const Desc params[K_N] = { { 0, RefType::Copy, false }, { 0, RefType::Copy, false }, { 0, RefType::LValue, true }, { 0, RefType::LValue, false },
    { 0, RefType::RValue, false }, { 0, RefType::RValue, true }, { 1, RefType::LValue, false } };
Function make(unsigned kind, unsigned callable)
{
    switch (kind) {
    case K_P: case K_CP: return makeFn<P>(callable);
    case K_CPR: return makeFn<const P&>(callable);
    case K_PR: return makeFn<P&>(callable);
    case K_PRR: return makeFn<P&&>(callable);
    case K_CPRR: return makeFn<const P&&>(callable);
    default: return makeFn<C&>(callable);
    }
}
enum { A_L, A_CL, A_R, A_VL, A_VCL, A_VR, A_VRV, A_VTC, A_CHILD = 8, A_N = 16 };
Desc describe(unsigned a)
{
    Desc d; d.type = a >= A_CHILD; a %= A_CHILD;
    d.cst = a == A_CL || a == A_VCL || a == A_VTC;
    d.ref = a == A_R || a == A_VRV || a == A_VTC ? RefType::RValue : RefType::LValue;
    return d;
}
bool binds(const Desc& a, const Desc& b)
{
    if (a.type != b.type && !(a.type == 1 && b.type == 0)) return false;
    if (b.ref == RefType::Copy) return true;
    if (b.ref == RefType::LValue) return b.cst || (a.ref == RefType::LValue && !a.cst);
    return a.ref == RefType::RValue && (b.cst || !a.cst);
}
// performs the call with T passed in the given way; own receives the address of a stored argument
template<typename T, typename Self> int64_t pass(const Function& f, Self* self, int64_t k, unsigned a, T& obj, Value& keep)
{
    const T& cobj = obj;
#define CALL(X) return self ? f.call<int64_t>(*self, k, X) : f.call<int64_t>(k, X)
    switch (a % A_CHILD) {
    case A_L: CALL(obj);
    case A_CL: CALL(cobj);
    case A_R: CALL(std::move(obj));
    case A_VL: keep = Value(obj); CALL(keep);
    case A_VCL: keep = Value(cobj); CALL(keep);
    case A_VR: keep = Value(std::move(obj)); CALL(keep);
    case A_VRV: keep = Value(obj).rvalue(); CALL(keep);
    default: keep = Value(obj).toConst(); CALL(keep);
    }
#undef CALL
}
template<typename T> void drive(const Function& f, unsigned callable, unsigned kind, unsigned a, T& obj, int64_t x, int64_t k)
{
    Desc d = describe(a), p = params[kind];
    bool ok = binds(d, p);
    sym_cover(ok ? "runs" : "refused");
    Target target; Value keep;
    Target* self = callable >= F_Member ? &target : nullptr;
    Target const* cself = &target;
    bool viaConst = callable == F_ConstMember && sym_choose(2, "constObject");
    probe = Probe(); probe.put = sym_i64("put");
    int64_t r = 0; long live = Counted::live, copies = Counted::copies;
    bool err = raises([&] {
        r = viaConst ? pass<T, const Target>(f, cself, k, a, obj, keep) : pass<T, Target>(f, self, k, a, obj, keep); });
    sym_check(err == !ok, "a call is accepted iff the argument can be bound to the parameter");
    unsigned how = a % A_CHILD;
    sym_check(Counted::live == live + (how == A_VR), "a call leaks or loses objects");
    const P& left = how == A_VR ? keep.get<P>() : obj;       // what the caller is left with
    if (!ok) {
        sym_check(probe.calls == 0, "a refused call ran the function");
        sym_check(how == A_R || left.p == x, "a refused call changed the argument");
        return;
    }
    sym_check(probe.calls == 1 && probe.k == k && r == int64_t(uint64_t(k) + 1), "the function runs once with its other arguments intact");
    sym_check(probe.seen == x, "the content of the argument reaches the parameter");
    if (callable == F_Functor) sym_check(probe.self == (void*)uintptr_t(77), "state of the functor");
    if (self) sym_check(probe.self == &target, "the object the member function is called on");
    if (callable == F_Member) sym_check(target.state == k, "effects on the object");
    const P* caller = &left;
    if (p.ref == RefType::LValue) {
        sym_check(how == A_R || probe.addr == caller, "reference parameters refer to the caller's object");
        sym_check(Counted::copies == copies, "reference parameters don't copy");
        if (how != A_R) sym_check(left.p == (p.cst ? x : probe.put), "changes to a mutable reference are seen by the caller, others there are none");
    }
    else if (p.ref == RefType::Copy) {
        sym_check(probe.addr != caller, "by-value parameters are distinct objects");
        if (d.ref == RefType::LValue || d.cst) sym_check(left.p == x, "by-value parameters leave the caller's object unchanged");
    }
    else {
        if (!d.cst && !p.cst) sym_check(probe.copies == copies && Counted::copies == copies, "r-values are moved, not copied");
        if (d.cst) sym_check(left.p == x, "a const object is left unchanged");
    }
}
}

extern "C" void prop_args()
{
    preload(); const long start = Counted::live; type<Target>();
    sym_expect("runs"); sym_expect("refused");
    int64_t x = sym_i64("x"), y = sym_i64("y"), k = sym_i64("k");
    {
        unsigned callable = sym_choose(F_N, "callable"), kind = sym_choose(K_N, "parameter"), a = sym_choose(A_N, "argument");
        Function f = make(kind, callable);
        if (a < A_CHILD) { P obj(x); drive<P>(f, callable, kind, a, obj, x, k); }
        else {
            C obj(x, y); drive<C>(f, callable, kind, a, obj, x, k);
            if (describe(a).ref == RefType::LValue && a % A_CHILD != A_VR) sym_check(obj.c == y, "the derived part of the argument");
        }
    }
    sym_check(Counted::live == start, "leak");
}

namespace {
struct Seen { int64_t a; bool b; double c; std::string d; int64_t e; const void* ap; long calls; } seen;
int64_t five(int64_t a, const P& p, double c, const std::string& d, P& e)
{
    seen.a = a; seen.b = p.p & 1; seen.c = c; seen.d = d; seen.e = e.p; seen.ap = &e; seen.calls++;
    e.p = p.p;
    return a;
}
int64_t threeInts(int64_t a, int64_t b, int64_t c) { seen.a = a; seen.e = b; seen.calls++; return int64_t(uint64_t(a) * 3 + uint64_t(b) * 5 + uint64_t(c) * 7); }
int64_t threeRefs(P& a, P& b, const P& c) { int64_t t = a.p; a.p = b.p; b.p = c.p; return t; }
}
extern "C" void prop_order()
{
    preload(); const long start = Counted::live;
    seen = Seen();
    int64_t a = sym_i64("a"), b = sym_i64("b"), c = sym_i64("c");
    double d = sym_f64("d");
    char s[3]; sym_bytes(s, 2, "s"); s[2] = 0; std::string str(s, 2);
    {
        Function f("f", &five), g("g", &threeInts), h("h", &threeRefs);
        P p(b), e(c);
        bool wrapped = sym_choose(2, "wrapped");
        int64_t r;
        if (wrapped) { Value va(a), vp(p), vd(d), vs(str), ve(e); r = f.call<int64_t>(va, vp, vd, vs, ve); }
        else r = f.call<int64_t>(a, p, d, str, e);
        sym_check(r == a && seen.calls == 1 && seen.a == a && seen.b == bool(b & 1), "arguments 1 and 2");
        sym_check(!__builtin_memcmp(&seen.c, &d, 8), "floating point argument");
        sym_check(seen.d == str && str.size() == 2, "text argument");
        sym_check(seen.e == c && seen.ap == &e && e.p == b && p.p == b, "reference argument");
        r = wrapped ? g.call<int64_t>(Value(a), Value(b), Value(c)) : g.call<int64_t>(a, b, c);
        sym_check(r == int64_t(uint64_t(a) * 3 + uint64_t(b) * 5 + uint64_t(c) * 7), "order of the arguments");
        P x(a), y(b), z(c);
        r = h.call<int64_t>(x, y, z);
        sym_check(r == a && x.p == b && y.p == c && z.p == c, "order of reference arguments");
        r = h.call<int64_t>(Value(x), Value(x), Value(z));
        sym_check(r == b && x.p == c && z.p == c, "one object bound to two parameters");
    }
    sym_check(Counted::live == start, "leak");
}

namespace {
int64_t last;
void takeRR(NoCopy&& n) { last = n.v; NoCopy mine(std::move(n)); mine.v ^= 1; }
void takeR(NoCopy& n) { last = n.v; n.v ^= 1; }
void takeCR(const NoCopy& n) { last = n.v; }
void takeN(Neither& n) { last = n.v; n.v ^= 1; }
void takeCN(const Neither& n) { last = n.v; }
void takeNM(NoMove n) { last = n.v; n.v ^= 1; }
}
extern "C" void prop_noncopy_args()
{
    preload(); const long start = Counted::live;
    int64_t x = sym_i64("x"); int64_t x1 = x ^ 1;
    {
        Function rr("f", &takeRR), r("f", &takeR), cr("f", &takeCR), n("f", &takeN), cn("f", &takeCN);
        NoCopy nc(x);
        last = 0; cr.call<void>(nc); sym_check(last == x && nc.v == x, "const reference to an object that can't be copied");
        last = 0; r.call<void>(nc); sym_check(last == x && nc.v == x1, "reference to an object that can't be copied");
        sym_check(raises([&] { rr.call<void>(nc); }) && nc.v == x1, "an l-value isn't moved from");
        last = 0; rr.call<void>(std::move(nc)); sym_check(last == x1, "an object that can't be copied is moved");
        NoCopy nd(x); Value v(nd); Value rv = v.rvalue();
        last = 0; rr.call<void>(rv); sym_check(last == x && nd.v == -1, "an object is moved out of an r-value");
        Neither o; o.v = x;
        last = 0; cn.call<void>(o); sym_check(last == x, "const reference to a pinned object");
        last = 0; n.call<void>(o); sym_check(last == x && o.v == x1, "reference to a pinned object");
        last = 0; n.call<void>(Value(o)); sym_check(last == x1, "reference to a pinned object in a value");
    }
    sym_check(Counted::live == start, "leak");
}

namespace {
long ran;
int64_t one(int64_t) { return ++ran; }
int64_t two(int64_t, const P&) { return ++ran; }
int64_t none() { return ++ran; }
template<typename F> void refused(const F& fn) { sym_check(raises(fn), "an impossible call raises an error"); }
}
extern "C" void prop_refused()
{
    preload(); const long start = Counted::live;
    int64_t x = sym_i64("x");
    {
        Function f0("f", &none), f1("f", &one), f2("f", &two), m("m", &P::set), g("g", &P::get);
        P p(x); const P cp(x); U u; int i = 0; Value vp(p), vu(u), vv;
        ran = 0;
        switch (sym_choose(16, "call")) {
        case 0: refused([&] { f0.call<int64_t>(x); }); break;
        case 1: refused([&] { f1.call<int64_t>(); }); break;
        case 2: refused([&] { f1.call<int64_t>(x, x); }); break;
        case 3: refused([&] { f1.call<int64_t>(p); }); break;
        case 4: refused([&] { f1.call<int64_t>(i); }); break;
        case 5: refused([&] { f2.call<int64_t>(x, u); }); break;
        case 6: refused([&] { f2.call<int64_t>(p, x); }); break;
        case 7: refused([&] { f2.call<int64_t>(x); }); break;
        case 8: refused([&] { f2.call<int64_t>(Value(x), vu); }); break;
        case 9: refused([&] { f2.call<int64_t>(x, p, x); }); break;
        case 10: refused([&] { m.call<void>(cp, x); }); sym_check(cp.p == x, "const object"); break;
        case 11: refused([&] { m.call<void>(u, x); }); break;
        case 12: refused([&] { m.call<void>(p); }); break;
        case 13: refused([&] { g.call<int64_t>(p, x); }); break;
        case 14: refused([&] { f1.call<int64_t>(vv); }); break;
        default: refused([&] { f2.call<int64_t>(vv, vp); }); break;
        }
        sym_check(ran == 0 && p.p == x, "an impossible call has no effect");
        sym_check(f0.call<int64_t>() == 1 && f1.call<int64_t>(x) == 2 && f2.call<int64_t>(x, p) == 3, "the functions still work");
    }
    sym_check(Counted::live == start, "leak");
}

extern "C" void prop_member()
{
    preload(); const long start = Counted::live;
    int64_t x = sym_i64("x"), y = sym_i64("y");
    {
        C c(x, x); const C& cc = c;
        unsigned how = sym_choose(4, "how");
        Value v = how == 0 ? Value(c) : how == 1 ? Value(cc) : how == 2 ? Value(C(x, x)) : Value(static_cast<P&>(c));
        sym_check(v.call<int64_t>("get") == x, "inherited const member function");
        bool err = raises([&] { v.call<void>("set", y); });
        sym_check(err == (how == 1), "mutable member function of a const object");
        const P& held = v.get<P>();
        sym_check(held.p == (how == 1 ? x : y), "effect of the member function on the held object");
        sym_check(how == 2 || c.p == held.p, "the value refers to the object");
        sym_check(v.call<int64_t>("who") == (how == 3 ? 1 : 2), "nearest declaration");
        err = raises([&] { v.call<int64_t>("getc"); });
        sym_check(err == (how == 3), "member function of the derived class only");
    }
    sym_check(Counted::live == start, "leak");
}

/* ------------------------------------------------------------ results ------------------------------------------------------------ */

namespace {
P gp; C gc; const P* gcp; int64_t retruns;
P rP() { retruns++; return P(gp.p); }
P& rPR() { retruns++; return gp; }
const P& rCPR() { retruns++; return gp; }
C rC() { retruns++; return C(gc.p, gc.c); }
C& rCR() { retruns++; return gc; }
const C& rCCR() { retruns++; return gc; }
void rVoid() { retruns++; }
Value rValue() { retruns++; return Value(gp); }
Value rValueOwn() { retruns++; return Value(P(gp.p)); }
P* rPtr() { retruns++; return &gp; }
int64_t rInt() { retruns++; return gp.p; }
std::string rStr() { retruns++; return std::string("text"); }
NoCopy rNC() { retruns++; return NoCopy(gp.p); }
P&& rPRR() { retruns++; return std::move(gp); }
const P&& rCPRR() { retruns++; return static_cast<const P&&>(gp); }
C&& rCRR() { retruns++; return std::move(gc); }
enum { R_P, R_PR, R_CPR, R_C, R_CR, R_CCR, R_Void, R_Value, R_ValueOwn, R_Ptr, R_Int, R_Str, R_NC, R_PRR, R_CPRR, R_CRR, R_N };
Function makeRet(unsigned r)
{
    switch (r) {
    case R_P: return Function("f", &rP); case R_PR: return Function("f", &rPR); case R_CPR: return Function("f", &rCPR); case R_C: return Function("f", &rC);
    case R_CR: return Function("f", &rCR); case R_CCR: return Function("f", &rCCR); case R_Void: return Function("f", &rVoid); case R_Value: return Function("f", &rValue);
    case R_ValueOwn: return Function("f", &rValueOwn);
    case R_Ptr: return Function("f", &rPtr); case R_Int: return Function("f", &rInt); case R_Str: return Function("f", &rStr); case R_NC: return Function("f", &rNC);
    case R_PRR: return Function("f", &rPRR); case R_CPRR: return Function("f", &rCPRR); default: return Function("f", &rCRR);
    }
}
enum { Q_Void, Q_Value, Q_P, Q_PR, Q_CPR, Q_C, Q_CR, Q_CCR, Q_U, Q_UR, Q_Int, Q_Ptr, Q_Str, Q_N };
// class delivered: 0 P 1 C 2 other; the object delivered
bool isRef(unsigned r) { return r == R_PR || r == R_CPR || r == R_CR || r == R_CCR || r == R_Value; }
bool isConstRet(unsigned r) { return r == R_CPR || r == R_CCR; }
bool isPClass(unsigned r) { return r <= R_CCR || r == R_Value || r == R_ValueOwn || r >= R_PRR; }
bool isCClass(unsigned r) { return r == R_C || r == R_CR || r == R_CCR || r == R_CRR; }
}

extern "C" void prop_return()
{
    preload();
    sym_expect("delivered"); sym_expect("refused");
    gp.p = sym_i64("p"); gc.p = sym_i64("cp"); gc.c = sym_i64("cc");
    const int64_t p = gp.p, cp = gc.p, cc = gc.c;
    long live = Counted::live;
    unsigned r = sym_choose(R_N, "returned"), q = sym_choose(Q_N, "requested");
    {
        Function f = makeRet(r);
        bool base = isPClass(r), derived = isCClass(r);
        int64_t want = derived ? cp : p;
        const P* obj = derived ? (const P*)&gc : &gp;
        bool isVal = r == R_Value || r == R_ValueOwn;
        bool ok; bool err = false;
        retruns = 0;
        switch (q) {
        case Q_Void: ok = true; err = raises([&] { f.call<void>(); }); break;
        case Q_Value: {
            ok = true; Value v; err = raises([&] { v = f.call<Value>(); });
            if (err) break;
            if (r == R_Void) { sym_check(v.isVoid(), "no result"); break; }
            sym_check(v.isStored() == !isRef(r), "a temporary is owned by the value, a reference isn't");
            sym_check(v.isConst() == isConstRet(r) && v.refType() == RefType::LValue, "constness of the result");
            if (base) {
                sym_check(v.type() == (derived ? type<C>() : type<P>()) && v.get<P>().p == want, "content and type of the result");
                if (isRef(r)) sym_check(v.value() == obj, "the result refers to the returned object");
                if (derived) sym_check(v.get<C>().c == cc, "derived part");
                sym_check(Counted::live == live + !isRef(r), "owned result");
            }
            if (r == R_Ptr) sym_check(v.get<P*>() == &gp, "pointer");
            if (r == R_Int) sym_check(v.get<int64_t>() == p, "integer");
            if (r == R_Str) sym_check(v.get<std::string>() == "text", "text");
            if (r == R_NC) sym_check(v.get<NoCopy>().v == p, "object that can't be copied");
            break;
        }
        case Q_P: ok = base; err = raises([&] { P x = f.call<P>(); sym_check(&x != obj && x.p == want, "copy of the result"); }); break;
        case Q_C: ok = derived; err = raises([&] { C x = f.call<C>(); sym_check(x.p == cp && x.c == cc, "copy of the result"); }); break;
        case Q_PR: ok = r == R_PR || r == R_CR || r == R_Value; if (r == R_ValueOwn) return;
            err = raises([&] { P& x = f.call<P&>(); sym_check(&x == obj && x.p == want, "returned reference"); }); break;
        case Q_CPR: ok = isRef(r) && r != R_Value; if (r == R_ValueOwn) return;
            err = raises([&] { const P& x = f.call<const P&>(); sym_check(&x == obj && x.p == want, "returned const reference"); }); break;
        case Q_CR: ok = r == R_CR; err = raises([&] { C& x = f.call<C&>(); sym_check(&x == &gc, "returned reference"); }); break;
        case Q_CCR: ok = r == R_CR || r == R_CCR; err = raises([&] { const C& x = f.call<const C&>(); sym_check(&x == &gc, "returned const reference"); }); break;
        case Q_U: ok = false; err = raises([&] { f.call<U>(); }); break;
        case Q_UR: ok = false; err = raises([&] { f.call<const U&>(); }); break;
        case Q_Int: ok = r == R_Int; err = raises([&] { sym_check(f.call<int64_t>() == p, "integer"); }); break;
        case Q_Ptr: ok = r == R_Ptr; err = raises([&] { sym_check(f.call<P*>() == &gp, "pointer"); }); break;
        default: ok = r == R_Str; err = raises([&] { sym_check(f.call<std::string>() == "text", "text"); }); break;
        }
        sym_cover(ok ? "delivered" : "refused");
        sym_check(err == !ok, "a result is delivered iff the function can provide it");
        sym_check(!ok || retruns == 1, "the function runs once");
        sym_check(isVal || ok || retruns == 0, "a refused call doesn't run the function");
        // an object returned as mutable r-value can be moved from by whoever takes the result
        bool moved = r == R_PRR || r == R_CRR;
        sym_check(r == R_PRR && retruns || gp.p == p, "returning doesn't modify the returned object");
        sym_check(r == R_CRR && retruns || (gc.p == cp && gc.c == cc), "returning doesn't modify the returned object");
        if (moved && !ok) sym_check(gp.p == p && gc.p == cp && gc.c == cc, "a refused call leaves the object alone");
    }
    sym_check(Counted::live == live, "results are released");
}

extern "C" void prop_lifetime()
{
    preload();
    int64_t x = sym_i64("x"); gp.p = x;
    long live = Counted::live;
    {
        Function f = makeRet(sym_choose(2, "returned") ? R_ValueOwn : R_P);
        Value v[3];
        v[0] = f.call<Value>();
        unsigned how = sym_choose(3, "share");
        v[1] = v[0];
        if (how == 0) v[2] = v[1]; else if (how == 1) v[2] = v[0].rvalue(); else v[2] = v[0].toConst();
        gp.p = 0;
        sym_check(Counted::live == live + 1, "one object is shared");
        bool gone[3] = { };
        for (int k = 0; k < 3; ++k) {
            unsigned i = sym_choose(3, "release"); sym_assume(!gone[i]); gone[i] = true;
            if (sym_choose(2, "clear")) v[i] = Value(); else { Value sink(std::move(v[i])); v[i] = Value(); }
            for (int j = 0; j < 3; ++j) if (!gone[j]) sym_check(v[j].get<P>().get() == x, "the result is alive as long as a value holds it");
            sym_check(Counted::live == live + (k < 2), "the result is destroyed with the last value holding it");
        }
    }
    sym_check(Counted::live == live, "leak");
}

namespace { void thrower(int64_t) { throw 42; } P throwerP(const P&) { throw 42; } }
extern "C" void prop_discard()
{
    preload();
    long live = Counted::live; int64_t x = sym_i64("x");
    gp.p = x;
    {
        for (unsigned r = 0; r < R_N; ++r) { Function f = makeRet(r); retruns = 0; f.call<void>(); sym_check(retruns == 1, "any result can be ignored"); if (r >= R_PRR) gp.p = x; }
        Function t("t", &thrower), tp("t", &throwerP);
        int c = 0; P p(x);
        try { t.call<void>(x); } catch (int e) { c += e; }
        try { tp.call<Value>(p); } catch (int e) { c += e; }
        try { tp.call<P>(P(x)); } catch (int e) { c += e; }
        sym_check(c == 126 && p.p == x, "exceptions of the target reach the caller");
    }
    sym_check(Counted::live == live && gp.p == x, "nothing is leaked");
}
