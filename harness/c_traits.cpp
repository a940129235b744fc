// Traits of types, fields, functions and scopes.
// @check C17 libs=core,prims,std entries=prop_traits,prop_dsl quick=-DB_K=3 thorough=-DB_K=4
// @bounds C17 each of the 4 kinds of trait holders, every sequence of B_K operations (attach without value, with a 64 bit integer, a text, an object or an lvalue; read back as any of 4 types) over 4 names, arbitrary values
#include "types.h"
#include "types/std/vector.h"
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif

namespace ht {
struct Tr { int64_t a, b; void f() {} void g() {} void g(int) {} };
}
reflectType(ht::Tr)
{
    reflectPlumbing();
    reflectTypeTrait(plain);
    reflectTypeValue(number, int64_t(42));
    reflectField(a); reflectField(b);
    reflectFieldTrait(a, mark);
    reflectFieldValue(b, mark, std::string("bee"));
    reflectFn(f);
    reflectFnTyped(g, void (T_::*) ()); reflectFnTyped(g, void (T_::*) (int));
    reflectFnTrait(f, quick);
    reflectFnValue(g, mark, int64_t(7));
}
reflectScope(ht::scoped)
{
    reflectScopeTrait(open);
    reflectScopeValue(depth, int64_t(2));
}

namespace {
const char* const Names[] = { "t", "tt", "", "size of" };
enum { NN = 4 };
enum Kind { Absent, None, Int, Text, Object, Ref };
struct Entry { Kind kind; int64_t v; };
int64_t global = 0;

struct Model
{
    Entry e[NN]; Traits& t;
    Model(Traits& t) : t(t) { for (auto& x : e) x = Entry{ Absent, 0 }; }
    std::string text(int64_t v) const { return std::string((const char*)&v, 8); }
    void read(int n)
    {
        const Traits& c = t;
        const Entry& x = e[n]; std::string name = Names[n];
        sym_check(c.is(name) == (x.kind != Absent), "presence of a trait");
        int64_t i = 0; std::string s; P p; Value v; 
        bool ei = raises([&] { i = c.getValue<int64_t>(name); });
        bool es = raises([&] { s = c.getValue<std::string>(name); });
        bool ep = raises([&] { p = c.getValue<P>(name); });
        bool ev = raises([&] { v = c.getValue<Value>(name); });
        sym_check(ei == (x.kind != Int && x.kind != Ref), "read as integer");
        sym_check(es == (x.kind != Text), "read as text");
        sym_check(ep == (x.kind != Object), "read as object");
        sym_check(ev == (x.kind == Absent), "read as value");
        if (!ei) sym_check(i == (x.kind == Ref ? global : x.v), "integer value");
        if (!es) sym_check(s == text(x.v), "text value");
        if (!ep) sym_check(p.p == x.v, "object value");
        if (!ev) {
            sym_check(v.isVoid() == (x.kind == None), "only a trait without value has none");
            if (x.kind == Ref) sym_check(v.value() == &global && !v.isStored(), "an lvalue is attached by reference");
            if (x.kind == Int) sym_check(v.isStored() && v.get<int64_t>() == x.v, "value of a trait");
        }
    }
    void verify()
    {
        unsigned n = 0;
        for (int i = 0; i < NN; ++i) { read(i); n += e[i].kind != Absent; }
        sym_check(!t.is("other") && raises([&] { t.getValue<Value>("other"); }), "a trait that was never attached");
        auto list = t.traits();
        sym_check(list.size() == n, "size of the listing");
        for (int i = 0; i < NN; ++i) {
            unsigned found = 0;
            for (auto& x : list) found += x == Names[i];
            sym_check(found == (e[i].kind != Absent), "every attached trait is listed once");
        }
    }
    void attach(int n, unsigned k, int64_t x)
    {
        std::string name = Names[n];
        long live = Counted::live;
        bool err = raises([&] {
            switch (k) {
            case None: t.addTrait(name); break;
            case Int: t.addTrait(name, int64_t(x)); break;
            case Text: t.addTrait(name, text(x)); break;
            case Object: t.addTrait(name, P(x)); break;
            default: t.addTrait(name, global); break;
            }
        });
        sym_check(err == (e[n].kind != Absent), "a trait is attached once");
        if (!err) { e[n] = Entry{ Kind(k), x }; if (k == Object) live++; }
        sym_check(Counted::live == live, "value kept or released");
    }
};
}

extern "C" void prop_traits()
{
    preload(); type<Tr>();
    global = sym_i64("global");
    Type ty("ht::Dyn");
    ty.addField<int>("f", 0); ty.addFunction("fn", [] {});
    Scope sc("dyn");
    unsigned holder = sym_choose(4, "holder");
    Traits& t = holder == 0 ? (Traits&)ty : holder == 1 ? (Traits&)ty.field("f") : holder == 2 ? (Traits&)ty.function("fn") : (Traits&)sc;
    Model m(t);
    for (int i = 0; i < B_K; ++i) {
        unsigned n = sym_choose(i + 1 < NN ? i + 1 : NN, "name"), k = 1 + sym_choose(5, "kind");
        int64_t x = sym_i64("x");
        m.attach((n + (B_K > 2 ? 1 : 0)) % NN, k, x);
        m.verify();
    }
    Traits* all[4] = { &ty, &ty.field("f"), &ty.function("fn"), &sc };
    for (Traits* o : all) if (o != &t) sym_check(o->traits().empty(), "traits of other holders are unaffected");
}

extern "C" void prop_dsl()
{
    preload();
    const Type* t = type<Tr>();
    sym_check(t->is("plain") && t->getValue<Value>("plain").isVoid() && t->getValue<int64_t>("number") == 42, "type traits");
    sym_check(t->is("sizeof") && t->getValue<size_t>("sizeof") == sizeof(Tr), "size of a type");
    sym_check(t->field("a").is("mark") && t->field("a").getValue<Value>("mark").isVoid() && t->field("b").getValue<std::string>("mark") == "bee", "field traits");
    sym_check(t->function("f").is("quick") && !t->function("f").is("mark") && t->function("g").getValue<int64_t>("mark") == 7 && !t->function("g").is("quick"), "function traits");
    const Scope* s = scope("ht::scoped");
    sym_check(s->is("open") && s->getValue<Value>("open").isVoid() && s->getValue<int64_t>("depth") == 2 && s->traits().size() == 2, "scope traits");
    sym_check(!t->is("mark") && !t->is("open") && raises([&] { t->getValue<int64_t>("depth"); }), "traits of other holders");
}
