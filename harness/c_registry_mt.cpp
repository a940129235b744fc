// The registry under concurrent use.
// @check C16 libs=core,prims,std entries=prop_first_lookup,prop_cross_lookup,prop_register,prop_template,prop_convertible,prop_alias mode=threads quick= thorough=-DB_T=3 preempt=2
// @bounds C16 two threads (three in the thorough tier), at most 2 preemptions at synchronisation and shared memory accesses, 6 scenarios: same first lookup, lookups loading each other's types, registration against lookup, template types, conversion tests, aliases
#include "types.h"
#include "types/std/vector.h"
using namespace reflect;
using namespace ht;
#ifndef B_T
#define B_T 2
#endif
namespace ht { struct T0 { int a; }; struct T1 : T0 { int b; }; struct T2 { int c; }; long loads0, loads1; }
reflectTypeDecl(ht::T0)
reflectTypeDecl(ht::T1)
reflectTypeImpl(ht::T0) { loads0++; reflectField(a); reflect::type<ht::T1>(); reflectTypeTrait(done); }
reflectTypeImpl(ht::T1) { loads1++; reflectParent(ht::T0); reflectField(b); reflectTypeTrait(done); }
reflectTypeDecl(ht::T2)
reflectTypeImpl(ht::T2) { reflectField(c); reflectTypeTrait(done); }

namespace {
const Type* got[4]; bool failed[4];
template<typename F> struct Job { F f; };
void run(void (*fn)(void*))
{
    int t[B_T];
    for (int i = 0; i < B_T; ++i) t[i] = sym_thread_create(fn, (void*)(uintptr_t)i);
    for (int i = 0; i < B_T; ++i) sym_thread_join(t[i]);
}
void loaded(const Type* t) { sym_check(t && t->is("done"), "a thread sees a type that isn't fully loaded"); }
}

extern "C" void prop_first_lookup()
{
    type<int>();
    run([](void* i) { const Type* t = type<T2>(); loaded(t); sym_check(t->hasField("c"), "fields"); got[(uintptr_t)i] = t; });
    for (int i = 0; i < B_T; ++i) sym_check(got[i] == got[0] && got[0] == type("ht::T2"), "threads see different types");
}
extern "C" void prop_cross_lookup()
{
    type<int>();
    run([](void* i) {
        const Type* t = (uintptr_t)i & 1 ? type<T1>() : type<T0>(); loaded(t); got[(uintptr_t)i] = t;
        sym_check(t->hasField("a"), "fields"); });
    sym_check(loads0 == 1 && loads1 == 1, "a loader runs more than once");
    sym_check(got[0] == type<T0>() && got[1] == type<T1>() && got[1]->parent() == got[0], "type identity");
}
extern "C" void prop_register()
{
    type<int>();
    run([](void* i) {
        if ((uintptr_t)i & 1) { Registry::add("New", [](Type* t) { t->addTrait("done"); }); loaded(Registry::get("New")); }
        else { const Type* t = nullptr; if (!raises([&] { t = Registry::get("New"); })) loaded(t); }
        Registry::add((uintptr_t)i & 1 ? "Other1" : "Other0", [](Type* t) { t->addTrait("done"); }); });
    loaded(type("New")); loaded(type("Other0")); loaded(type("Other1"));
}
extern "C" void prop_template()
{
    type<int>();
    run([](void* i) { const Type* t = type<std::vector<int>>(); sym_check(t->is("list") && t->hasFunction("at"), "a thread sees a type that isn't fully loaded"); got[(uintptr_t)i] = t; });
    for (int i = 0; i < B_T; ++i) sym_check(got[i] == got[0], "threads see different types");
    sym_check(type("std::vector<int>") == got[0], "lost registration");
}
extern "C" void prop_convertible()
{
    type<int>(); type<long>();
    run([](void* i) {
        if ((uintptr_t)i & 1) loaded(type<T0>());
        sym_check(Argument::make<int>().isConvertibleTo(Argument::make<long>()) == Match::None && Argument::make<int>().isConvertibleTo(Argument::make<int>()) == Match::Exact, "conversion test"); });
}
extern "C" void prop_alias()
{
    type<int>(); type<T2>();
    static long refused; refused = 0;
    run([](void* i) {
        Registry::alias("ht::T2", (uintptr_t)i & 1 ? "alias1" : "alias0");
        failed[(uintptr_t)i] = raises([] { Registry::alias("ht::T2", "both"); });
        sym_check(type("both") == type("ht::T2"), "alias"); });
    for (int i = 0; i < B_T; ++i) refused += failed[i];
    sym_check(refused == B_T - 1, "one thread declares the alias, others are refused");
    sym_check(type("alias0") == type<T2>() && type("alias1") == type<T2>(), "lost alias");
}
