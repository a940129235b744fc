// Functions and variables of namespaces reflected through scopes.
// @check C26 libs=core,prims,std entries=prop_vars,prop_fns,prop_lookup quick=-DB_K=2 thorough=-DB_K=3
// @bounds C26 every sequence of B_K accesses (read, write, write of the wrong type, change behind the back of the reflection) to 7 variables (integers of 2 widths, text, a class, a boolean, a const integer, a pointer) of 3 nested namespaces; 9 functions of those namespaces, overloads included, with arbitrary arguments, passed directly or as values, from each enclosing scope; 16 names
#include "types.h"
#include "types/pointer.h"
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif

int64_t gx_count = 0;
namespace gx {
int32_t small = 0; bool flag = false; std::string text; P obj; extern const int64_t fixed; const int64_t fixed = 77;
long calls = 0;
int64_t twice(int64_t v) { calls++; return (int64_t)((uint64_t)v * 2); }
int64_t mix(int64_t a, int32_t b) { calls++; return (int64_t)((uint64_t)a * 3 + b); }
int64_t mix(int32_t a, int64_t b) { calls++; return (int64_t)((uint64_t)(int64_t)a * 5 + b); }
void bump(int64_t& v) { calls++; v = (int64_t)((uint64_t)v + 1); }
namespace in {
int64_t* ptr = nullptr; int64_t deep = 0;
int64_t& ref() { calls++; return deep; }
const P& look() { calls++; return obj; }
int64_t mix(int64_t a) { calls++; return (int64_t)((uint64_t)a - 1); }
}
}
int64_t gx_free(int64_t v) { gx::calls++; return (int64_t)(0 - (uint64_t)v); }

reflectScope(gx)
{
    reflectGlobalVar(gx::small);
    reflectGlobalVar(gx::flag);
    reflectGlobalVar(gx::text);
    reflectGlobalVar(gx::obj);
    reflectGlobalVar(gx::fixed);
    reflectGlobalFn(gx::twice);
    reflectGlobalFnTyped(gx::mix, int64_t (*) (int64_t, int32_t));
    reflectGlobalFnTyped(gx::mix, int64_t (*) (int32_t, int64_t));
    reflectGlobalFn(gx::bump);
    reflectScopeTrait(outer);
}
reflectScope(gx::in)
{
    reflectGlobalVar(gx::in::ptr);
    reflectGlobalVar(gx::in::deep);
    reflectGlobalFn(gx::in::ref);
    reflectGlobalFn(gx::in::look);
    reflectGlobalFn(gx::in::mix);
    reflectGlobalVar(gx_count);
    reflectGlobalFn(gx_free);
}
reflectScope(gx::bare) { reflectScopeValue(depth, int64_t(3)); }

namespace {
int64_t spare[2];

struct State
{
    int32_t small; bool flag; int64_t text, obj, count, deep; int64_t* ptr;
    static std::string str(int64_t v) { return std::string((const char*)&v, 8); }
    void verify() const
    {
        sym_check(gx::small == small && gx::flag == flag && gx::text == str(text) && gx::obj.p == obj, "content of the variables");
        sym_check(gx_count == count && gx::in::deep == deep && gx::in::ptr == ptr && gx::fixed == 77, "content of the variables");
    }
};

// the scope to go through and the name relative to it
struct Path { const Scope* scope; std::string name; };
Path path(const std::string& in, const std::string& name)
{

    const Scope* global = reflect::scope();
    unsigned from = sym_choose(2, "from the enclosing scope");
    if (!from || in.empty()) return Path{ global, in.empty() ? name : in + "::" + name };
    return Path{ reflect::scope(in), name };
}
}

extern "C" void prop_vars()
{
    int64_t t0 = sym_i64("text"), o0 = sym_i64("obj"), c0 = sym_i64("count"), d0 = sym_i64("deep");
    int32_t s0 = sym_i32("small"); bool f0 = sym_u(8, "flag") & 1;
    State st = { s0, f0, t0, o0, c0, d0, &spare[0] };
    gx::small = s0; gx::flag = f0; gx::text = State::str(t0); gx::obj.p = o0; gx_count = c0; gx::in::deep = d0; gx::in::ptr = &spare[0];
    for (int k = 0; k < B_K; ++k) {
        unsigned var = sym_choose(8, "variable"), op = sym_choose(4, "operation");
        int64_t v = sym_i64("value");
        static const char* const in[] = { "gx", "gx", "gx", "gx", "gx", "gx::in", "gx::in", "" };
        static const char* const names[] = { "small", "flag", "text", "obj", "fixed", "ptr", "deep", "gx_count" };
        Path p = path(in[var], names[var]);
        sym_check(p.scope->hasFunction(p.name), "a variable is accessed through a function of its name");
        if (op == 0) {
            switch (var) {
            case 0: sym_check(p.scope->call<int32_t>(p.name) == st.small, "value of a variable"); break;
            case 1: sym_check(p.scope->call<bool>(p.name) == st.flag, "value of a variable"); break;
            case 2: sym_check(p.scope->call<std::string>(p.name) == State::str(st.text), "value of a variable"); break;
            case 3: { P r = p.scope->call<P>(p.name); sym_check(r.p == st.obj, "value of a variable"); r.p = v; break; }
            case 4: sym_check(p.scope->call<int64_t>(p.name) == 77, "value of a constant"); break;
            case 5: sym_check(p.scope->call<int64_t*>(p.name) == st.ptr, "value of a variable"); break;
            case 6: sym_check(p.scope->call<int64_t>(p.name) == st.deep, "value of a variable"); break;
            case 7: { Value r = p.scope->call<Value>(p.name); sym_check(r.get<int64_t>() == st.count, "value of a variable"); break; }
            }
        }
        else if (op == 1) {
            switch (var) {
            case 0: p.scope->call<void>(p.name, (int32_t)v); st.small = (int32_t)v; break;
            case 1: { bool b = v & 1; p.scope->call<void>(p.name, b); st.flag = b; break; }
            case 2: { std::string s = State::str(v); p.scope->call<void>(p.name, s); st.text = v; sym_check(s == State::str(v), "the source of a write is left alone"); break; }
            case 3: { C s(v, 1); p.scope->call<void>(p.name, s); st.obj = v; sym_check(s.p == v, "the source of a write is left alone"); break; }
            case 4: sym_check(raises([&] { p.scope->call<void>(p.name, v); }), "a constant cannot be set"); break;
            case 5: { int64_t* q = v & 1 ? &spare[1] : nullptr; p.scope->call<void>(p.name, q); st.ptr = q; break; }
            case 6: { const int64_t q = v; p.scope->call<void>(p.name, q); st.deep = v; break; }
            case 7: { Value q(v); p.scope->call<void>(p.name, q); st.count = v; break; }
            }
        }
        else if (op == 2) {
            float wrong = 1;
            sym_check(raises([&] { p.scope->call<void>(p.name, wrong); }), "a variable is only set to its own type");
            sym_check(raises([&] { p.scope->call<float>(p.name); }), "a variable is only read as its own type");
        }
        else {
            gx::small = st.small = (int32_t)v; gx::obj.p = st.obj = v; gx::in::deep = st.deep = v; gx_count = st.count = v;
        }
        st.verify();
    }
}

extern "C" void prop_fns()
{
    int64_t a = sym_i64("a"); int32_t b = sym_i32("b"); bool wrap = sym_choose(2, "as values");
    unsigned f = sym_choose(10, "function");
    gx::calls = 0; gx::obj.p = a; gx::in::deep = b;
    static const char* const in[] = { "gx", "gx", "gx", "gx", "gx::in", "gx::in", "gx::in", "", "gx", "gx" };
    static const char* const names[] = { "twice", "mix", "mix", "bump", "ref", "look", "mix", "gx_free", "mix", "in" };
    Path p = path(in[f], names[f]);
    long expect = 1;
    uint64_t ua = a, ub = (int64_t)b;
    switch (f) {
    case 0: { int64_t r = wrap ? p.scope->call<int64_t>(p.name, Value(a)) : p.scope->call<int64_t>(p.name, a); sym_check((uint64_t)r == ua * 2, "result"); break; }
    case 1: { int64_t r = wrap ? p.scope->call<int64_t>(p.name, Value(a), Value(b)) : p.scope->call<int64_t>(p.name, a, b); sym_check((uint64_t)r == ua * 3 + ub, "first overload"); break; }
    case 2: { int64_t r = wrap ? p.scope->call<int64_t>(p.name, Value(b), Value(a)) : p.scope->call<int64_t>(p.name, b, a); sym_check((uint64_t)r == ub * 5 + ua, "second overload"); break; }
    case 3: { int64_t x = a; if (wrap) { Value w(x); p.scope->call<void>(p.name, w); } else p.scope->call<void>(p.name, x); sym_check((uint64_t)x == ua + 1, "a reference argument is the very object"); break; }
    case 4: { int64_t& r = p.scope->call<int64_t&>(p.name); sym_check(&r == &gx::in::deep, "a returned reference is the very object"); break; }
    case 5: { const P& r = p.scope->call<const P&>(p.name); sym_check(&r == &gx::obj && raises([&] { p.scope->call<P&>(p.name); }), "a returned reference keeps its constness"); break; }
    case 6: { int64_t r = p.scope->call<int64_t>(p.name, a); sym_check((uint64_t)r == ua - 1, "the function of the inner namespace"); break; }
    case 7: { int64_t r = p.scope->call<int64_t>(p.name, a); sym_check((uint64_t)r == 0 - ua, "a function outside of namespaces"); break; }
    case 8: {
        expect = 0;
        sym_check(raises([&] { p.scope->call<int64_t>(p.name, a); }) && raises([&] { p.scope->call<int64_t>(p.name, a, a); }) && raises([&] { p.scope->call<int64_t>(p.name, a, b, b); }), "no overload for the arguments");
        sym_check(p.scope->function(p.name).size() == 2, "overloads of a function");
        break;
    }
    case 9: expect = 0; sym_check(!p.scope->hasFunction(p.name) && raises([&] { p.scope->call<void>(p.name); }), "a scope is not a function"); break;
    }
    sym_check(gx::calls == expect, "the function is called once");
}

extern "C" void prop_lookup()
{
    static const struct { const char* name; bool scope, fn; } all[] = {
        { "gx", true, false }, { "gx::in", true, false }, { "gx::bare", true, false }, { "gx::out", false, false },
        { "in", false, false }, { "gx::twice", false, true }, { "gx::in::mix", false, true }, { "mix", false, false },
        { "gx::mix", false, true }, { "gx::in::small", false, false }, { "gx::small", false, true }, { "small", false, false },
        { "gx_free", false, true }, { "gx::in::gx_free", false, false }, { "gx::bare::x", false, false }, { "out", false, false } };
    unsigned i = sym_choose(16, "name"), j = sym_choose(16, "then");
    for (unsigned k : { i, j }) {
        std::string name = all[k].name;
        const Scope* global = reflect::scope();
        sym_check(global->hasScope(name) == all[k].scope, "presence of a scope");
        sym_check(global->hasFunction(name) == all[k].fn, "presence of a function");
        Scope* s = nullptr;
        bool es = raises([&] { s = reflect::scope(name); });
        sym_check(es == !all[k].scope, "finding a scope");
        if (s) sym_check(s->id() == name && s == reflect::scope(name), "full name of a scope");
        bool ef = raises([&] { global->function(name); });
        sym_check(ef == !all[k].fn, "finding a function");
    }
    Scope* gx = reflect::scope("gx"); Scope* bare = reflect::scope("gx::bare");
    sym_check(gx->is("outer") && !gx->is("depth") && !bare->is("outer") && bare->getValue<int64_t>("depth") == 3, "traits of scopes");
    auto fns = gx->functions(); auto sub = gx->scopes();
    sym_check(fns.size() == 8 && sub.size() == 2, "listing of a scope");
    for (const char* n : { "small", "flag", "text", "obj", "fixed", "twice", "mix", "bump" }) {
        unsigned found = 0;
        for (auto& f : fns) found += f == n;
        sym_check(found == 1, "each function is listed once");
    }
}
