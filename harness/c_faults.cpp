// Exceptions raised by user code.
// @check C28 libs=core,prims,std entries=prop_faults,prop_containers,prop_chain,prop_many quick=-DB_K=8,-DB_M=300 thorough=-DB_K=14,-DB_M=1100
// @bounds C28 38 operations on values, functions, overloads, fields, casts, vectors, maps and pointers; the first B_K user operations (constructors, assignments, function bodies) of each can be the failing one, with four types of exceptions; arbitrary contents; one retry; and B_M failures in a row of one of 6 operations before it's tried again
#include "types.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/pointer.h"
#include <map>
#include <stdexcept>
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 5
#endif
#ifndef B_M
#define B_M 40
#endif

namespace ht {
struct Fault { int64_t x; };
long ops, failAt = -1; int64_t payload;
unsigned kind;
struct Failure : std::runtime_error { int64_t x; Failure(int64_t x) : std::runtime_error("failure"), x(x) {} };
void tick()
{
    if (ops++ != failAt) return;
    switch (kind) {
    case 0: throw Fault{payload};
    case 1: throw Failure(payload);
    case 2: throw reflect::Error("user error");
    default: throw payload;
    }
}

struct F : Counted
{
    int64_t v;
    F() : v(0) { tick(); }
    explicit F(int64_t v) : v(v) { tick(); }
    F(const F& o) : Counted(o), v(o.v) { tick(); }
    F(F&& o) : Counted(std::move(o)), v(o.v) { tick(); o.v = -1; }
    F& operator=(const F& o) { o.check(); tick(); v = o.v; return *this; }
    F& operator=(F&& o) { o.check(); tick(); v = o.v; if (&o != this) o.v = -1; return *this; }
    bool operator==(const F& o) const { return v == o.v; }
    F operator+(const F& o) const { tick(); F r(v ^ o.v); tick(); return r; }
    F& operator+=(const F& o) { tick(); v ^= o.v; return *this; }
    F twin() const { tick(); return *this; }
    const F& self() const { tick(); return *this; }
    void take(F o) { tick(); v = o.v; }
    int64_t sum(F a, const F& b, F&& c) const { tick(); F d(std::move(c)); return a.v ^ b.v ^ d.v; }
    operator int() const { tick(); return int(v); }
};
struct H { F f; int64_t n; F g; H(int64_t a = 0, int64_t b = 0, int64_t c = 0) : f(a), n(b), g(c) {} };
struct D : F { int64_t d; explicit D(int64_t v = 0, int64_t d = 0) : F(v), d(d) {} };
F byValue(F f) { tick(); return f; }
int64_t over1(const F& f) { tick(); return f.v; }
int64_t over2(int i) { tick(); return i; }
}
reflectType(ht::F)
{
    reflectPlumbing(); reflectAllocPlumbing(); reflectCons(int64_t); reflectField(v); reflectFn(twin); reflectFn(self); reflectFn(take); reflectFn(sum);
    reflectOpCast(int); reflectFnTyped(operator+, ht::F (ht::F::*)(const ht::F&) const); reflectFnTyped(operator+=, ht::F& (ht::F::*)(const ht::F&));
}
reflectType(ht::H) { reflectPlumbing(); reflectField(f); reflectField(n); reflectField(g); }
reflectType(ht::D) { reflectParent(ht::F); reflectPlumbing(); reflectField(d); }

namespace {
// true if fn went through, false if the injected failure reached us unchanged
template<typename Fn> bool attempt(long k, Fn fn)
{
    ops = 0; failAt = k;
    bool failed = false;
    try { fn(); }
    catch (const Fault& f) { failed = true; sym_check(kind == 0 && f.x == payload, "the exception arrives as it was thrown"); }
    catch (const Failure& f) { failed = true; sym_check(kind == 1 && f.x == payload && std::string(f.what()) == "failure", "the exception arrives as it was thrown"); }
    catch (int64_t x) { failed = true; sym_check(kind == 3 && x == payload, "the exception arrives as it was thrown"); }
    catch (const reflect::Error& e) { failed = true; sym_check(kind == 2 && std::string(e.what()) == "user error", "the exception arrives as it was thrown"); }
    failAt = -1;
    sym_check(failed == (ops > k), "the exception reaches the caller");
    sym_cover(failed ? "failed" : "went through");
    return !failed;
}
template<typename T> void load() { Value v = type<T>()->template call<Value>(type<T>()->id()); (void)v; }
void warm()
{
    preload(); type<F>(); type<H>(); type<D>(); type<std::vector<F>>(); type<std::map<int, F>>(); type<std::shared_ptr<F>>(); type<std::unique_ptr<F>>(); type<F*>();
    sym_expect("failed"); sym_expect("went through");
}
}

extern "C" void prop_faults()
{
    warm();
    payload = sym_i64("payload"); kind = sym_choose(4, "kind");
    long k = long(sym_choose(B_K, "failing operation"));
    int64_t x = sym_i64("x"), y = sym_i64("y"), z = sym_i64("z");
    unsigned op = sym_choose(25, "op");
    {
        F a(x), b(y); const F& ca = a; H h(x, z, y); D d(x, z);
        Value va(a), vca(ca), vb(b), vs((F(x))), vh(h), vd(d), r;
        Function bv("byValue", &byValue); Overloads ov; ov.add(Function("over", &over1)); ov.add(Function("over", &over2));
        long live = Counted::live; F* raw = nullptr;
        int64_t got = 0, want = x;
        auto run = [&] {
            switch (op) {
            case 0: { F t(x); r = Value(std::move(t)); got = r.get<F>().v; break; }
            case 1: r = vs.copy(); got = r.get<F>().v; break;
            case 2: r = vca.copy(); got = r.get<F>().v; break;
            case 3: r = type<F>()->construct(x); got = r.get<F>().v; break;
            case 4: r = type<F>()->construct(); got = r.get<F>().v; want = 0; break;
            case 5: r = type<F>()->construct(vca); got = r.get<F>().v; break;
            case 6: vb.assign(va); got = b.v; break;
            case 7: r = bv.call<Value>(vca); got = r.get<F>().v; break;
            case 8: got = bv.call<F>(ca).v; break;
            case 9: got = va.call<F>("twin").v; break;
            case 10: r = va.call<Value>("self"); got = r.get<F>().v; sym_check(r.value() == &a, "reference result"); break;
            case 11: vb.call<void>("take", vca); got = b.v; break;
            case 12: { F c(z); got = va.call<int64_t>("sum", vca, b, std::move(c)); want = x ^ y ^ z; break; }
            case 13: r = va.call<Value>("operator+", vb); got = r.get<F>().v; want = x ^ y; break;
            case 14: va.call<void>("operator+=", vb); got = a.v; want = x ^ y; break;
            case 15: got = cast<F>(vca).v; break;
            case 16: got = vh.field<F>("g").v; want = y; break;
            case 17: r = vh.copy(); got = r.field("f").get<F>().v ^ r.field("g").get<F>().v; want = x ^ y; break;
            case 18: got = ov.call<int64_t>(vca); break;
            case 19: vb.assign(va.rvalue()); got = b.v; break;
            case 20: raw = type<F>()->call<F*>("new", vca); got = raw->v; break;
            case 21: raw = type<F>()->call<F*>("new", va.rvalue()); got = raw->v; break;
            case 22: r = type<F>()->construct(va.rvalue()); got = r.get<F>().v; break;
            case 23: { F&& m = cast<F&&>(va.rvalue()); got = m.v; break; }
            default: raw = type<F>()->call<F*>("new"); got = raw->v; want = 0; break;
            }
        };
        bool ok = attempt(k, run);
        if (!ok) {
            r = Value();
            sym_check(Counted::live == live && !raw, "a failure leaves nothing behind");
            // the content can be gone if a later move than that of the object itself failed
            if (op >= 19 && op <= 23 && op != 20 && k > 0) a.v = x;
            sym_check(a.v == x && b.v == y && h.f.v == x && h.n == z && h.g.v == y && vs.isStored() && vs.get<F>().v == x, "a failure leaves the objects as they were");
            sym_check(va.value() == &a && vb.value() == &b && vca.isConst() && vh.value() == &h && vd.value() == &d, "a failure leaves the values as they were");
            ok = attempt(1000, run);
            sym_check(ok, "the operation works when it's tried again");
        }
        sym_check(got == want, "result of the operation");
        r = Value(); delete raw;
        sym_check(Counted::live == live, "leak");
        sym_check((op == 14 || a.v == x || (op >= 19 && op <= 23)) && (op == 6 || op == 11 || op == 19 || b.v == y) && h.f.v == x && h.g.v == y && vs.get<F>().v == x && d.v == x && d.d == z, "other objects are left alone");
    }
    sym_check(Counted::live == 0, "leak");
}

extern "C" void prop_containers()
{
    warm();
    payload = sym_i64("payload"); kind = sym_choose(4, "kind");
    long k = long(sym_choose(B_K, "failing operation"));
    int64_t x = sym_i64("x"), y = sym_i64("y");
    unsigned op = sym_choose(8, "op");
    {
        F a(x); const F& ca = a;
        std::vector<F> vec; vec.reserve(2); vec.emplace_back(y);
        std::map<int, F> map; map[3].v = y;
        std::shared_ptr<F> sp(new F(y)); std::unique_ptr<F> up(new F(y));
        Value vca(ca), vv(vec), vm(map), vsp(sp), vup(up), r;
        long live = Counted::live;
        int64_t got = 0, want = x;
        auto run = [&] {
            switch (op) {
            case 0: vv.call<void>("push_back", vca); got = vec.back().v; break;
            case 1: { F t(x); vv.call<void>("push_back", std::move(t)); got = vec.back().v; break; }
            case 2: vv.call<void>("resize", size_t(2)); got = vec.back().v; want = 0; break;
            case 3: r = vv.copy(); got = r.get<std::vector<F>>()[0].v; want = y; break;
            case 4: r = vm[4]; got = r.get<F>().v; want = 0; break;
            case 5: r = vm.copy(); got = r.get<std::map<int, F>>().at(3).v; want = y; break;
            case 6: r = (*vsp).copy(); got = r.get<F>().v; want = y; break;
            default: r = vup.call<Value>("operator*").call<Value>("twin"); got = r.get<F>().v; want = y; break;
            }
        };
        bool ok = attempt(k, run);
        if (!ok) {
            r = Value();
            sym_check(Counted::live == live, "a failure leaves nothing behind");
            sym_check(vec.size() == 1 && vec[0].v == y && map.size() == 1 && map[3].v == y && sp->v == y && up->v == y && a.v == x, "a failure leaves the containers as they were");
            ok = attempt(1000, run);
            sym_check(ok, "the operation works when it's tried again");
        }
        sym_check(got == want, "result of the operation");
        sym_check(vec[0].v == y && map[3].v == y && sp->v == y && up->v == y && a.v == x && vec.size() == (op <= 2 ? 2 : 1) && map.size() == (op == 4 ? 2 : 1), "content of the containers");
    }
    sym_check(Counted::live == 0, "leak");
}

// moves, replaced and shared contents, and failures while values are passed along
extern "C" void prop_chain()
{
    warm();
    payload = sym_i64("payload"); kind = sym_choose(4, "kind");
    long k = long(sym_choose(B_K, "failing operation"));
    int64_t x = sym_i64("x"), y = sym_i64("y");
    unsigned op = sym_choose(5, "op");
    {
        Value vs((F(x))), other((F(y))), shared(vs), r;
        F* held = (F*)vs.value();
        long live = Counted::live;
        int64_t got = 0;
        Function idv("id", [] (Value v) { tick(); return v; }), compose("compose", [] (Value v) { Function g("g", &byValue); return g.call<Value>(v); });
        auto run = [&] {
            switch (op) {
            case 0: r = vs.move(); got = r.get<F>().v; break;
            case 1: other.assign(vs); got = other.get<F>().v; break;
            case 2: r = idv.call<Value>(vs); got = r.get<F>().v; break;
            case 3: r = compose.call<Value>(vs); got = r.get<F>().v; break;
            default: { Value t = vs.copy(); r = t.move(); got = r.get<F>().v; break; }
            }
        };
        bool ok = attempt(k, run);
        if (!ok) {
            r = Value();
            // the content can be gone if a later move than that of the object itself failed
            int64_t left = held->v;
            sym_check(left == x || (op == 0 && k > 0), "a failure leaves the objects as they were");
            if (left != x) { sym_cover("moved out"); held->v = x; }
            sym_check(Counted::live == live, "a failure leaves nothing behind");
            sym_check(vs.isStored() && vs.value() == held && shared.value() == held && other.get<F>().v == y, "a failure leaves the values as they were");
            ok = attempt(1000, run);
            sym_check(ok, "the operation works when it's tried again");
        }
        sym_check(got == x && shared.value() == held && (op == 0 || held->v == x) && (op == 1 || other.get<F>().v == y), "content of the values");
        if (op == 0) sym_check(vs.type() == type<void>() && r.value() != held, "a moved value is empty");
    }
    sym_check(Counted::live == 0, "leak");
}

// failures don't add up
extern "C" void prop_many()
{
    warm();
    payload = sym_i64("payload"); kind = 0;
    int64_t x = sym_i64("x");
    unsigned op = sym_choose(6, "op");
    {
        F a(x), b(1); const F& ca = a; H h(x);
        Value va(a), vca(ca), vb(b), vh(h), r;
        Function bv("byValue", &byValue);
        long live = Counted::live;
        int64_t got = 0;
        auto run = [&] {
            switch (op) {
            case 0: r = bv.call<Value>(vca); got = r.get<F>().v; break;
            case 1: r = type<F>()->construct(vca); got = r.get<F>().v; break;
            case 2: r = va.call<Value>("twin"); got = r.get<F>().v; break;
            case 3: vb.call<void>("take", vca); got = b.v; break;
            case 4: r = vh.copy(); got = r.field<F>("f").v; break;
            default: got = cast<int>(va); break;
            }
        };
        for (int i = 0; i < B_M; ++i) {
            bool ok = attempt(0, run);
            sym_check(!ok && Counted::live == live, "a failure leaves nothing behind");
        }
        bool ok = attempt(1000, run);
        sym_check(ok, "the operation works when it's tried again");
        sym_check(got == (op == 5 ? int64_t(int(x)) : x), "result of the operation");
    }
    sym_check(Counted::live == 0, "leak");
}
