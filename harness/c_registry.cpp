// Registry of types: identity, lazy loading, aliases.
// @check C15 libs=core,prims,std entries=prop_registry,prop_typed,prop_templates quick=-DB_K=3 thorough=-DB_K=4
// @bounds C15 every sequence of B_K registrations (3 names x 3 loaders, which look up each other, themselves and register further types), aliases (3 targets x 3 alias names) and lookups (8 names)
#include "types.h"
#include "types/std/vector.h"
#include <map>
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 1
#endif
namespace ht { struct L0 { int a; }; struct L1 : L0 { }; struct Never { }; typedef L0 L0Alias_; long loads0, loads1, loadsNever; }
reflectTypeDecl(ht::L0)
reflectTypeDecl(ht::L1)
reflectTypeImpl(ht::L0) { loads0++; reflectPlumbing(); reflectField(a); reflect::type<ht::L1>(); reflectAlias(ht::L0Alias_); }

namespace {
const char* const names[] = { "A", "B", "C", "x", "y", "T<A>", "", "Unknown" };
enum { NAMES = 8, TYPES = 3 };
struct Model
{
    std::map<std::string, int> loader;                  // registered loaders by tag
    std::map<std::string, std::string> alias;
    std::map<std::string, const Type*> types;
    std::map<std::string, int> loadedBy;
    std::map<int, int> runs;
    std::string resolve(const std::string& n) const { auto it = alias.find(n); return it == alias.end() ? n : it->second; }
    bool known(const std::string& n) const { return loader.count(resolve(n)); }
} *M;
int kindOf(int tag) { return tag % 10; }
void load(Type* t, int tag);
void lookup(const std::string& n)
{
    if (!M->known(n)) return;
    const Type* t = Registry::get(n);
    auto& known = M->types[M->resolve(n)];
    sym_check(t && (!known || known == t) && t->id() == M->resolve(n), "a type keeps its identity while types are loading");
    known = t;
}
void load(Type* t, int tag)
{
    M->runs[tag]++;
    sym_check(!M->loadedBy.count(t->id()), "a type is loaded twice");
    sym_check(M->loader[t->id()] == tag, "the loader of another registration is used");
    M->loadedBy[t->id()] = tag;
    M->types[t->id()] = t;
    t->addTrait("before", int(tag));
    switch (kindOf(tag)) {
    case 0: lookup(t->id()); break;                      // looks itself up
    case 1: lookup("A"); lookup("B"); lookup("C"); break;
    default:                                             // registers another type
        if (!M->loader.count("T<A>")) { M->loader["T<A>"] = 100; Registry::add("T<A>", [](Type* u) { load(u, 100); }); }
        lookup("T<A>");
        break;
    }
    t->addTrait("after", int(tag));
}
void query(const std::string& n)
{
    const Type* t = nullptr;
    std::string r = M->resolve(n);
    bool known = M->loader.count(r), wasLoaded = M->loadedBy.count(r);
    const Type* before = wasLoaded ? M->types[r] : nullptr; (void)before;
    auto runs = M->runs;
    bool err = raises([&] { t = Registry::get(n); });
    sym_check(err == !known, "a lookup raises an error iff the type is unknown");
    if (err) { sym_check(runs == M->runs, "a failed lookup runs no loader"); return; }
    sym_cover("found");
    sym_check(t && t->id() == r, "type of another name");
    if (wasLoaded) sym_check(t == before && runs == M->runs, "a later lookup yields the same type and loads nothing");
    sym_check(M->types[r] == t && M->loadedBy.count(r) && M->runs[M->loadedBy[r]] >= 1, "the first lookup loads the type");
    int tag = M->loader[r];
    sym_check(t->is("before") && t->is("after") && t->getValue<int>("before") == tag && t->getValue<int>("after") == tag, "a type is returned fully loaded by its first loader");
    sym_check(Registry::get(n) == t && (M->alias.count(r) || type(r) == t), "repeated lookup");
}
}

extern "C" void prop_registry()
{
    type<int>();
    sym_expect("found"); sym_expect("alias refused");
    Model model; M = &model;
    for (int k = 0; k < B_K; ++k) {
        unsigned op = sym_choose(3, "op");
        if (op == 0) {
            std::string n = names[sym_choose(TYPES, "name")]; int tag = 10 * (k + 1) + int(sym_choose(3, "loader"));
            sym_check(!raises([&] { Registry::add(n, [tag](Type* t) { load(t, tag); }); }), "registration");
            model.loader.emplace(n, tag);
            sym_check(scope()->hasType(n), "a registered type is visible in its scope");
        }
        else if (op == 1) {
            std::string id = names[sym_choose(TYPES, "target")], al = names[2 + sym_choose(3, "alias")];
            bool dup = model.alias.count(al);
            if (dup) sym_cover("alias refused");
            sym_check(raises([&] { Registry::alias(id, al); }) == dup, "an alias can be declared once");
            model.alias.emplace(al, id);
        }
        else query(names[sym_choose(NAMES, "lookup")]);
    }
    for (unsigned i = 0; i < NAMES; ++i) query(names[i]);
    for (auto& r : model.runs) sym_check(r.second == 1 || r.first == 100, "a loader runs more than once");
}

reflectTypeImpl(ht::L1) { loads1++; reflectParent(ht::L0); reflectPlumbing(); }
reflectType(ht::Never) { loadsNever++; reflectPlumbing(); }
extern "C" void prop_typed()
{
    sym_check(!loads0 && !loads1 && !loadsNever, "types are loaded before their first use");
    sym_check(scope("ht")->hasType("L0") && !loads0, "types are visible before they're loaded");
    unsigned first = sym_choose(5, "first");
    const Type* t = first == 0 ? type<L0>() : first == 1 ? type("ht::L0") : first == 2 ? scope("ht")->type("L0") : first == 3 ? type<L1>()->parent() : type<const L0&>();
    sym_check(loads0 == 1 && loads1 == 1 && !loadsNever, "types loading each other are loaded once");
    sym_check(t == type<L0>() && t == type<L0&>() && t == type<const L0>() && t == type("ht::L0") && t == type("ht::L0Alias_") && t == scope()->type("ht::L0"), "one identity");
    sym_check(t->id() == "ht::L0" && typeId<L0>() == t->id() && t->hasField("a") && type<L1>()->parent() == t && type<L1>()->isChildOf(t), "loaded type");
    sym_check(loads0 == 1 && loads1 == 1 && !loadsNever, "later lookups load nothing");
    sym_check(raises([&] { type("ht::L2"); }) && raises([&] { type(""); }) && raises([&] { scope("ht")->type("L2"); }), "unknown types");
    sym_check(raises([&] { Registry::add("", [](Type*) { }); }) && raises([&] { Registry::add("ht::Q", std::function<void(Type*)>()); }) && raises([&] { Registry::alias("", "q"); }) && raises([&] { Registry::alias("ht::L0", ""); }), "registrations without a name or loader");
    sym_check(raises([&] { type("ht::Q"); }) && raises([&] { type("q"); }), "refused registrations");
    sym_check(raises([&] { Registry::alias<L1>("ht::L0Alias_"); }) && type("ht::L0Alias_") == t, "an alias never changes");
}

extern "C" void prop_templates()
{
    typedef std::vector<int64_t> V; typedef std::vector<V> VV;
    bool named = sym_choose(2, "namedFirst");
    if (named) {
        sym_check(raises([&] { type("std::vector<long int>"); }), "unused template");
    }
    const Type* vv = type<VV>(); const Type* v = type<V>();
    sym_check(v->id() == "std::vector<long int>" && vv->id() == "std::vector<" + v->id() + ">", "name of a template type");
    sym_check(type(v->id()) == v && type<V>() == v && type<VV>() == vv && type(vv->id()) == vv, "identity of template types");
    sym_check(v->is("list") && v->getValue<const Type*>("valueType") == type<int64_t>() && vv->getValue<const Type*>("valueType") == v, "loaded template types");
    const Type* p = type<int64_t*>();
    sym_check(p->id() == "long int*" && p->isPointer() && p->pointee() == type<int64_t>() && type(p->id()) == p && type<int64_t**>()->pointee() == p, "pointer types");
}
