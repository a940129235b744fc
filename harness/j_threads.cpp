// Parsing and printing from several threads.
// @check J18 libs=core,prims,std,json entries=prop_parse,prop_print,prop_both,prop_shared,prop_custom,prop_untyped mode=threads quick= thorough= preempt=1 tpreempt=2
// @bounds J18 two threads, at most 1 preemption (2 in the thorough tier) at synchronisation and shared memory accesses; 6 scenarios over first uses and later uses of types: parsing the same type, printing the same type, one parsing and one printing, types which share the type of a field, custom functions which parse and print values themselves, untyped values; arbitrary digits in the parsed documents
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <sstream>
#ifndef B_T
#define B_T 2
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Inner { int64_t n; Inner() : n(0) {} };
struct A { Inner in; std::vector<int64_t> l; };
struct B { bool b; std::shared_ptr<Inner> in; B() : b(false) {} };
struct C { A a; int64_t v; C() : v(0) {}
    void read(Reader& r) { json::parse(r, a); v = a.in.n + 1; }
    void write(Writer& w) const { json::print(w, a); } };
}
reflectType(jd::Inner) { reflectPlumbing(); reflectAlloc(); reflectField(n); }
reflectType(jd::A) { reflectPlumbing(); reflectField(in); reflectField(l); }
reflectType(jd::B) { reflectPlumbing(); reflectField(b); reflectField(in); }
reflectType(jd::C) { reflectPlumbing(); reflectFn(read); reflectFn(write); reflectTypeValue(json, json::custom("read", "write")); }

namespace {
struct Job { uintptr_t i; int64_t want; std::string text; bool ok; std::string out; jd::A a; jd::B b; jd::C c; Value v; } jobs[B_T];
void run(void (*fn)(void*))
{
    int t[B_T];
    for (int i = 0; i < B_T; ++i) { jobs[i].i = i; t[i] = sym_thread_create(fn, &jobs[i]); }
    for (int i = 0; i < B_T; ++i) sym_thread_join(t[i]);
}
template<typename T> bool read(const char* text, T& v) { auto e = json::parse(std::string(text), v); return !e; }
template<typename T> std::string write(const T& v) { std::ostringstream os; Writer w(os); json::print(w, v); return w.error() ? "error" : os.str(); }
const char* const docs[] = { "{\"in\":{\"n\":1},\"l\":[1]}", "{\"in\":{\"n\":2},\"l\":[2]}", "{\"in\":{\"n\":3},\"l\":[3]}" };
// the same document with another digit in both places
void mine(Job& j)
{
    std::string d = docs[0];
    unsigned char c = (unsigned char)sym_u(8, "digit");
    sym_assume(bool((c >= '0') & (c <= '9')));
    j.want = c - '0';
    for (auto& x : d) if (x == '1') x = char(c);
    j.text = d;
}
bool holds(const jd::A& a, int64_t want) { return a.in.n == want && a.l.size() == 1 && a.l[0] == want; }
bool good(const jd::A& a, uintptr_t i) { return a.in.n == int64_t(i + 1) && a.l.size() == 1 && a.l[0] == int64_t(i + 1); }
void warmTypes() { preload(); type<jd::A>(); type<jd::B>(); type<jd::C>(); type<Reader>(); type<Writer>(); }
}

extern "C" void prop_parse()
{
    if (sym_choose(2, "loaded")) warmTypes();
    for (Job& j : jobs) mine(j);
    run([](void* p) { Job& j = *(Job*)p; j.ok = read(j.text.c_str(), j.a); });
    for (int i = 0; i < B_T; ++i) sym_check(jobs[i].ok && holds(jobs[i].a, jobs[i].want), "parsed by several threads");
}
extern "C" void prop_print()
{
    if (sym_choose(2, "loaded")) warmTypes();
    for (int i = 0; i < B_T; ++i) { jobs[i].a.in.n = i + 1; jobs[i].a.l.push_back(i + 1); }
    run([](void* p) { Job& j = *(Job*)p; j.out = write(j.a); });
    for (int i = 0; i < B_T; ++i) sym_check(jobs[i].out == docs[i], "printed by several threads");
}
extern "C" void prop_both()
{
    if (sym_choose(2, "loaded")) warmTypes();
    for (int i = 0; i < B_T; ++i) { jobs[i].a.in.n = i + 1; if (!(i & 1)) jobs[i].a.l.push_back(i + 1); }
    run([](void* p) { Job& j = *(Job*)p; if (j.i & 1) j.ok = read(docs[j.i], j.a); else j.out = write(j.a); });
    for (int i = 0; i < B_T; ++i) sym_check(i & 1 ? jobs[i].ok && good(jobs[i].a, i) : jobs[i].out == docs[i], "parsed and printed by several threads");
}
extern "C" void prop_shared()
{
    if (sym_choose(2, "loaded")) warmTypes();
    for (Job& j : jobs) mine(j);
    run([](void* p) { Job& j = *(Job*)p; j.ok = j.i & 1 ? read("{\"b\":true,\"in\":{\"n\":9}}", j.b) : read(j.text.c_str(), j.a); });
    for (int i = 0; i < B_T; ++i) sym_check(jobs[i].ok && (i & 1 ? jobs[i].b.b && jobs[i].b.in && jobs[i].b.in->n == 9 : holds(jobs[i].a, jobs[i].want)), "types sharing a field type");
}
extern "C" void prop_custom()
{
    warmTypes();
    run([](void* p) { Job& j = *(Job*)p; j.ok = read(docs[j.i], j.c); j.out = write(j.c); });
    for (int i = 0; i < B_T; ++i) sym_check(jobs[i].ok && good(jobs[i].c.a, i) && jobs[i].c.v == i + 2 && jobs[i].out == docs[i], "custom functions of several threads");
}
extern "C" void prop_untyped()
{
    if (sym_choose(2, "loaded")) warmTypes();
    run([](void* p) { Job& j = *(Job*)p; j.ok = read(j.i & 1 ? "[1]" : "{\"a\":2}", j.v); });
    for (int i = 0; i < B_T; ++i) {
        sym_check(jobs[i].ok && jobs[i].v.isStored(), "untyped value");
        if (i & 1) { auto& l = jobs[i].v.get<std::vector<Value>>(); sym_check(l.size() == 1 && l[0].get<int64_t>() == 1, "untyped list"); }
        else { auto& m = jobs[i].v.get<std::unordered_map<std::string, Value>>(); sym_check(m.size() == 1 && m.begin()->second.get<int64_t>() == 2, "untyped object"); }
    }
}
