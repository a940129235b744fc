// Overload sets: which function a call reaches, when a call is refused, which registrations are refused.
// @check C02 libs=core,prims,std entries=prop_one_param,prop_two_params,prop_query,prop_query_set,prop_many_calls quick=-DB_K=2,-DB_MANY=14 thorough=-DB_K=3,-DB_MANY=40
// @bounds C02 sets of up to B_K overloads with one parameter drawn from 9 kinds, in every order, called with 8 kinds of argument (direct and through values); pairs of two-parameter overloads over 4 kinds per parameter; signatures looked up in sets of up to B_K overloads x 4 return kinds; sets of up to B_MANY overloads of which one or two fit the call, at any places; object contents are arbitrary 64 bit values
// @check C05 libs=core,prims,std entries=prop_register,prop_register_arity,prop_many_registered quick=-DB_K=3,-DB_MANY=14 thorough=-DB_K=4,-DB_MANY=40
// @bounds C05 every sequence of up to B_K registrations over 9 parameter kinds x 4 return kinds; a registration like any one of up to B_MANY before it
#include "types.h"
namespace ht { template<int N> struct Tn { int64_t v; Tn() : v(N) {} }; }
namespace reflect { template<int N> struct Reflect< ht::Tn<N> > { typedef ht::Tn<N> T_; static std::string id() { return "ht::Tn" + std::to_string(N); } reflectTemplateLoader() static void reflect(Type* type_) { reflectPlumbing(); } }; }
using namespace reflect;
using namespace ht;
#ifndef B_MANY
#define B_MANY 20
#endif

namespace {
enum Kind { K_P, K_CPR, K_PR, K_PRR, K_C, K_CCR, K_CR, K_I, K_UCR, K_N };
struct Desc { int type; RefType ref; bool cst; };          // type: 0 P, 1 C, 2 int, 3 U, 4 Value
const Desc kinds[K_N] = {
    { 0, RefType::Copy, false }, { 0, RefType::LValue, true }, { 0, RefType::LValue, false }, { 0, RefType::RValue, false },
    { 1, RefType::Copy, false }, { 1, RefType::LValue, true }, { 1, RefType::LValue, false }, { 2, RefType::Copy, false }, { 3, RefType::LValue, true } };

int level(const Desc& a, const Desc& b)     // 0 none 1 partial 2 exact
{
    if (a.type == b.type && a.ref == b.ref && a.cst == b.cst) return 2;
    if (a.type != b.type && !(a.type == 1 && b.type == 0)) return 0;
    if (b.ref == RefType::Copy) return a.ref == RefType::RValue || (a.ref == RefType::Copy && a.cst == b.cst) ? 2 : 1;
    if (b.ref == RefType::LValue) {
        if (b.cst) return a.ref == RefType::LValue && a.cst ? 2 : 1;
        return a.ref == RefType::LValue && !a.cst ? 2 : 0;
    }
    if (a.ref != RefType::RValue || (a.cst && !b.cst)) return 0;
    return a.cst == b.cst ? 2 : 1;
}

int lastTag; int64_t lastVal; long calls;
void hit(int tag, int64_t v) { lastTag = tag; lastVal = v; calls++; }

Function make(unsigned kind, int tag)
{
    switch (kind) {
    case K_P:   return Function("f", [tag](P o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_CPR: return Function("f", [tag](const P& o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_PR:  return Function("f", [tag](P& o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_PRR: return Function("f", [tag](P&& o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_C:   return Function("f", [tag](C o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_CCR: return Function("f", [tag](const C& o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_CR:  return Function("f", [tag](C& o) -> int { o.check(); hit(tag, o.p); return tag; });
    case K_I:   return Function("f", [tag](int i) -> int { hit(tag, i); return tag; });
    default:    return Function("f", [tag](const U& o) -> int { o.check(); hit(tag, o.u); return tag; });
    }
}

enum Arg { A_PL, A_PCL, A_PR, A_CL, A_CCL, A_CR, A_VPL, A_VPC, A_N };
const Desc args[A_N] = {
    { 0, RefType::LValue, false }, { 0, RefType::LValue, true }, { 0, RefType::RValue, false },
    { 1, RefType::LValue, false }, { 1, RefType::LValue, true }, { 1, RefType::RValue, false },
    { 0, RefType::LValue, false }, { 0, RefType::LValue, true } };

int callWith(const Overloads& ov, unsigned arg, int64_t v)
{
    P p(v); const P cp(v); C c(v, v); const C cc(v, v);
    switch (arg) {
    case A_PL: return ov.call<int>(p);
    case A_PCL: return ov.call<int>(cp);
    case A_PR: return ov.call<int>(P(v));
    case A_CL: return ov.call<int>(c);
    case A_CCL: return ov.call<int>(cc);
    case A_CR: return ov.call<int>(C(v, v));
    case A_VPL: { Value val(p); return ov.call<int>(val); }
    default: { Value val(cp); return ov.call<int>(val); }
    }
}
} // namespace

extern "C" void prop_one_param()
{
    preload();
    sym_expect("exact"); sym_expect("unique-partial"); sym_expect("ambiguous"); sym_expect("none");
    int64_t v = sym_i64("v");
    Overloads ov;
    unsigned k[B_K]; bool in[B_K]; unsigned n = 1 + sym_choose(B_K, "n");
    for (unsigned i = 0; i < n; ++i) {
        k[i] = sym_choose(K_N, "kind");
        in[i] = !raises([&] { ov.add(make(k[i], i + 1)); });
    }
    unsigned a = sym_choose(A_N, "arg");
    int exact = 0, exactTag = 0, partial = 0, partialTag = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (!in[i]) continue;
        int l = level(args[a], kinds[k[i]]);
        if (l == 2 && !exact++) exactTag = i + 1;
        if (l == 1 && !partial++) partialTag = i + 1;
    }
    calls = 0; int r = 0; long live = Counted::live;
    bool err = raises([&] { r = callWith(ov, a, v); });
    sym_check(Counted::live == live, "a call leaks or double destroys an argument");
    if (exact) {
        sym_cover("exact");
        sym_check(!err && r == exactTag && lastTag == exactTag, "the exact overload isn't the one called");
    }
    else if (partial == 1) {
        sym_cover("unique-partial");
        sym_check(!err && r == partialTag && lastTag == partialTag, "the only viable overload isn't the one called");
    }
    else {
        sym_cover(partial ? "ambiguous" : "none");
        sym_check(err, "an ambiguous or impossible call didn't raise an error");
        sym_check(calls == 0, "a refused call still reached a function");
        return;
    }
    sym_check(calls == 1, "the function wasn't called exactly once");
    sym_check(lastVal == v, "the argument's content didn't reach the function");
}

namespace {
Function make2(unsigned a, unsigned b, int tag)
{
#define F(A, B) return Function("f", [tag](A x, B y) -> int { hit(tag, int64_t(uint64_t(x.p) ^ (uint64_t(y.p) << 1))); return tag; })
    switch (a * 4 + b) {
    case 0: F(const P&, const P&); case 1: F(const P&, P&); case 2: F(const P&, const C&); case 3: F(const P&, C&);
    case 4: F(P&, const P&); case 5: F(P&, P&); case 6: F(P&, const C&); case 7: F(P&, C&);
    case 8: F(const C&, const P&); case 9: F(const C&, P&); case 10: F(const C&, const C&); case 11: F(const C&, C&);
    case 12: F(C&, const P&); case 13: F(C&, P&); case 14: F(C&, const C&); default: F(C&, C&);
    }
#undef F
}
const unsigned k2[4] = { K_CPR, K_PR, K_CCR, K_CR };
int low(int a, int b) { return a < b ? a : b; }
} // namespace

extern "C" void prop_two_params()
{
    preload();
    sym_expect("exact"); sym_expect("partial"); sym_expect("ambiguous"); sym_expect("none");
    int64_t v = sym_i64("v"), w = sym_i64("w");
    unsigned a[2], b[2]; bool in[2];
    Overloads ov;
    for (int i = 0; i < 2; ++i) {
        a[i] = sym_choose(4, "a"); b[i] = sym_choose(4, "b");
        in[i] = !raises([&] { ov.add(make2(a[i], b[i], i + 1)); });
    }
    unsigned x = sym_choose(4, "x"), y = sym_choose(2, "y");
    const Desc& dx = args[x == 0 ? A_PL : x == 1 ? A_PCL : x == 2 ? A_CL : A_CCL];
    const Desc& dy = args[y == 0 ? A_PL : A_CCL];
    int exact = 0, exactTag = 0, partial = 0, partialTag = 0;
    for (int i = 0; i < 2; ++i) {
        if (!in[i]) continue;
        int l = low(level(dx, kinds[k2[a[i]]]), level(dy, kinds[k2[b[i]]]));
        if (l == 2 && !exact++) exactTag = i + 1;
        if (l == 1 && !partial++) partialTag = i + 1;
    }
    P p(v); const P cp(v); C c(v, v); const C cc(v, v); P q(w); const C cq(w, w);
    calls = 0; int r = 0;
    bool err = raises([&] {
        switch (x * 2 + y) {
        case 0: r = ov.call<int>(p, q); break; case 1: r = ov.call<int>(p, cq); break;
        case 2: r = ov.call<int>(cp, q); break; case 3: r = ov.call<int>(cp, cq); break;
        case 4: r = ov.call<int>(c, q); break; case 5: r = ov.call<int>(c, cq); break;
        case 6: r = ov.call<int>(cc, q); break; default: r = ov.call<int>(cc, cq); break;
        }
    });
    if (exact) { sym_cover("exact"); sym_check(!err && r == exactTag, "exact overload not chosen"); }
    else if (partial == 1) { sym_cover("partial"); sym_check(!err && r == partialTag, "only viable overload not chosen"); }
    else { sym_cover(partial ? "ambiguous" : "none"); sym_check(err && calls == 0, "call not refused"); return; }
    sym_check(lastVal == (v ^ int64_t(uint64_t(w) << 1)), "arguments reached the function in another order or changed");
}

extern "C" void prop_query()
{
    preload();
    sym_expect("yes"); sym_expect("no");
    Overloads ov;
    unsigned k = sym_choose(K_N, "kind"), q = sym_choose(K_N, "query"), rq = sym_choose(3, "ret");
    ov.add(make(k, 1));
    static const Type* t[4] = { type<P>(), type<C>(), type<int>(), type<U>() };
    Argument ret = rq == 0 ? Argument::make<int>() : rq == 1 ? Argument::make<void>() : Argument::make<P>();
    std::vector<Argument> as(1, Argument(t[kinds[q].type], kinds[q].ref, kinds[q].cst));
    bool want = rq != 2 && level(kinds[q], kinds[k]) > 0;
    sym_cover(want ? "yes" : "no");
    sym_check(ov.test(ret, as) == want, "test for a signature");
    const Function* fn = nullptr;
    bool err = raises([&] { fn = &ov.get(ret, as); });
    sym_check(err == !want, "looking up a signature succeeds iff an overload accepts it");
    if (want) sym_check(fn == &ov[0], "lookup returns the registered function");
    sym_check(!ov.test(ret, std::vector<Argument>()), "a signature with another arity is accepted");
}

namespace {
Function makeR(unsigned kind, unsigned ret)
{
#define F(T) { if (ret == 0) return Function("f", [](T) -> int { return 0; }); \
               if (ret == 1) return Function("f", [](T) -> void {}); \
               if (ret == 2) return Function("f", [](T) -> C { return C(); }); \
               return Function("f", [](T) -> P { return P(); }); }
    switch (kind) {
    case K_P: F(P) case K_CPR: F(const P&) case K_PR: F(P&) case K_PRR: F(P&&)
    case K_C: F(C) case K_CCR: F(const C&) case K_CR: F(C&) case K_I: F(int) default: F(const U&)
    }
#undef F
}
bool retOk(unsigned have, unsigned want)     // can a function returning `have` stand for one returning `want`
{
    if (want == 1) return true;              // result dropped
    if (have == 1) return false;
    return have == want || (have == 2 && want == 3);
}
} // namespace

extern "C" void prop_register()
{
    preload();
    sym_expect("accepted"); sym_expect("refused");
    Overloads ov;
    unsigned k[B_K], r[B_K]; bool in[B_K]; size_t count = 0;
    for (unsigned i = 0; i < B_K; ++i) {
        k[i] = sym_choose(K_N, "kind"); r[i] = sym_choose(i + 1 < B_K || B_K == 2 ? 4 : 1, "ret");
        bool clash = false;
        for (unsigned j = 0; j < i; ++j)
            if (in[j] && level(kinds[k[j]], kinds[k[i]]) == 2 && retOk(r[i], r[j])) clash = true;
        bool err = raises([&] { ov.add(makeR(k[i], r[i])); });
        sym_cover(clash ? "refused" : "accepted");
        sym_check(err == clash, "a registration is refused iff the new overload is ambiguous with a registered one");
        in[i] = !clash;
        count += in[i];
        sym_check(ov.size() == count, "overload count after a registration");
    }
}

extern "C" void prop_register_arity()
{
    preload();
    Overloads ov;
    bool one = sym_choose(2, "order");
    Function f1("f", [](const P&) -> int { return 1; }), f2("f", [](const P&, const P&) -> int { return 2; }), f0("f", []() -> int { return 0; });
    if (one) { ov.add(std::move(f1)); ov.add(std::move(f0)); ov.add(std::move(f2)); }
    else { ov.add(std::move(f2)); ov.add(std::move(f1)); ov.add(std::move(f0)); }
    P p;
    sym_check(ov.call<int>() == 0 && ov.call<int>(p) == 1 && ov.call<int>(p, p) == 2, "arity selects the overload");
    sym_check(raises([&] { ov.call<int>(p, p, p); }), "a call with an unregistered arity is refused");
}

namespace {
struct Answer { bool test, get; const Function* fn; };
template<typename Fn> Answer ask(const Overloads& ov)
{
    Answer a; a.fn = nullptr;
    a.test = ov.test<Fn>();
    a.get = !raises([&] { a.fn = &ov.get<Fn>(); });
    return a;
}
Answer ask(const Overloads& ov, unsigned kind, unsigned ret)
{
#define F(T) return ret == 0 ? ask<int(T)>(ov) : ret == 1 ? ask<void(T)>(ov) : ask<P(T)>(ov);
    switch (kind) {
    case K_P: F(P) case K_CPR: F(const P&) case K_PR: F(P&) case K_PRR: F(P&&)
    case K_C: F(C) case K_CCR: F(const C&) case K_CR: F(C&) case K_I: F(int) default: F(const U&)
    }
#undef F
}
} // namespace

extern "C" void prop_query_set()
{
    preload();
    sym_expect("yes"); sym_expect("no");
    Overloads ov;
    unsigned k[B_K], r[B_K], n = 0, total = sym_choose(B_K + 1, "n");
    for (unsigned i = 0; i < total; ++i) {
        unsigned kind = sym_choose(K_N, "kind"), ret = sym_choose(B_K == 2 ? 4 : 2, "ret");
        if (raises([&] { ov.add(makeR(kind, ret)); })) continue;
        k[n] = kind; r[n] = ret; n++;
    }
    unsigned q = sym_choose(K_N, "query"), rq = sym_choose(4, "query ret");
    static const Type* t[4] = { type<P>(), type<C>(), type<int>(), type<U>() };
    Argument ret = rq == 0 ? Argument::make<int>() : rq == 1 ? Argument::make<void>() : rq == 2 ? Argument::make<C>() : Argument::make<P>();
    std::vector<Argument> as(1, Argument(t[kinds[q].type], kinds[q].ref, kinds[q].cst));
    bool want = false, fits[B_K];
    for (unsigned i = 0; i < n; ++i) want |= fits[i] = retOk(r[i], rq) && level(kinds[q], kinds[k[i]]) > 0;
    sym_cover(want ? "yes" : "no");
    sym_check(ov.test(ret, as) == want, "test for a signature");
    const Function* fn = nullptr;
    bool err = raises([&] { fn = &ov.get(ret, as); });
    sym_check(err == !want, "looking up a signature succeeds iff an overload accepts it");
    if (want) { bool found = false; for (unsigned i = 0; i < n; ++i) found |= fits[i] && fn == &ov[i]; sym_check(found, "lookup returns a function which accepts the signature"); }
    if (rq != 2) {
        Answer a = ask(ov, q, rq);
        sym_check(a.test == want && a.get == want, "the same question asked with a function type");
        if (want) { bool found = false; for (unsigned i = 0; i < n; ++i) found |= fits[i] && a.fn == &ov[i]; sym_check(found, "lookup returns a function which accepts the signature"); }
    }
    Function as2 = makeR(q, rq);                          // the same question by way of a function
    bool any = false;
    for (unsigned i = 0; i < n; ++i) any |= retOk(rq, r[i]) && level(kinds[k[i]], kinds[q]) > 0;
    sym_check(ov.test(as2) == any, "test for a function");
}

// sets of many overloads
namespace {
template<int N> Function makeN(unsigned kind, int tag)
{
    switch (kind) {
    case 0: return Function("f", [tag](Tn<N>& o) -> int { hit(tag, o.v); return tag; });
    case 1: return Function("f", [tag](const Tn<N>& o) -> int { hit(tag, o.v); return tag; });
    default: return Function("f", [tag](Tn<N> o) -> int { hit(tag, o.v); return tag; });
    }
}
template<int N> struct Nth
{
    static Function make(int n, unsigned kind, int tag) { return n == N ? makeN<N>(kind, tag) : Nth<N - 1>::make(n, kind, tag); }
    static int call(const Overloads& ov, int n) { if (n != N) return Nth<N - 1>::call(ov, n); Tn<N> o; return ov.call<int>(o); }
};
template<> struct Nth<-1>
{
    static Function make(int, unsigned, int) { return Function("f", [] () {}); }
    static int call(const Overloads&, int) { return -1; }
};
typedef Nth<B_MANY - 1> Last;
} // namespace

extern "C" void prop_many_calls()
{
    preload();
    sym_expect("exact"); sym_expect("only"); sym_expect("ambiguous");
    int at = int(sym_choose(B_MANY, "place")), other = int(sym_choose(B_MANY, "other place"));
    unsigned kind = sym_choose(3, "kind"), second = sym_choose(3, "second kind");
    int64_t v = sym_i64("v"), w = sym_i64("w");
    Overloads ov; bool in = true;
    for (int i = 0; i < B_MANY; ++i) {
        // the overload for C is at one place and one for its base P at another one
        if (i == at) ov.add(kind == 0 ? make(K_CR, 1000) : kind == 1 ? make(K_CCR, 1000) : make(K_C, 1000));
        else if (i == other) in = !raises([&] { ov.add(second == 0 ? make(K_PR, 1001) : second == 1 ? make(K_CPR, 1001) : make(K_P, 1001)); });
        else ov.add(Last::make(i, unsigned(i) % 3, i));
    }
    sym_check(ov.size() == B_MANY - !in && in == !(at < other && kind == second), "overloads");
    C c(v, w);
    int lc = level(args[A_CL], kinds[kind == 0 ? K_CR : kind == 1 ? K_CCR : K_C]), lp = at == other || !in ? 0 : level(args[A_CL], kinds[second == 0 ? K_PR : second == 1 ? K_CPR : K_P]);
    calls = 0; int r = 0;
    bool err = raises([&] { r = ov.call<int>(c); });
    if (lc == 2 && lp == 2) sym_check(!err && (r == 1000 || r == 1001), "an exact overload is called");
    else if (lc == 2 || lp == 2) { sym_cover("exact"); sym_check(!err && r == (lc == 2 ? 1000 : 1001), "the exact overload is called"); }
    else if (!lc || !lp) { sym_cover("only"); sym_check(!err && r == (lc ? 1000 : 1001), "the only overload which fits is called"); }
    else { sym_cover("ambiguous"); sym_check(err && calls == 0, "an ambiguous call is refused"); }
    if (!err) sym_check(lastVal == v && calls == 1, "the argument reached the function");
    Argument ret = Argument::make<int>();
    std::vector<Argument> as(1, Argument::make<C&>());
    sym_check(ov.test(ret, as), "signature");
    for (int i = 0; i < B_MANY; ++i) {
        if (i == at || i == other) continue;
        sym_check(Last::call(ov, i) == i && lastTag == i && lastVal == i, "the overload which fits is called");
        if (i >= 3 && i < B_MANY - 3) i += 5;             // not each of them on every path
    }
}

extern "C" void prop_many_registered()
{
    preload();
    sym_expect("refused"); sym_expect("accepted");
    unsigned n = 1 + sym_choose(B_MANY, "n"), like = sym_choose(n, "like"), kind = sym_choose(3, "kind");
    Overloads ov;
    for (unsigned i = 0; i < n; ++i) ov.add(Last::make(int(i), i % 3, int(i)));
    const Desc k[3] = { { 0, RefType::LValue, false }, { 0, RefType::LValue, true }, { 0, RefType::Copy, false } };
    bool clash = level(k[like % 3], k[kind]) == 2;
    bool err = raises([&] { ov.add(Last::make(int(like), kind, 1000)); });
    sym_cover(clash ? "refused" : "accepted");
    sym_check(err == clash && ov.size() == n + !clash, "a registration is refused iff the new overload is ambiguous with any registered one");
}
