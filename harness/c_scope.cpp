// Qualified names and scopes.
// @check C13 libs=core,prims entries=prop_head,prop_tail,prop_join,prop_nested quick=-DB_N=8 thorough=-DB_N=10
// @bounds C13 every byte string of up to B_N characters; names of up to 65537 nested brackets and up to 70000 characters with any character at their middle and ends
// @check C14 libs=core,prims,std entries=prop_scope,prop_scope_deep quick=-DB_K=2 thorough=-DB_K=3
// @bounds C14 every sequence of B_K registrations (two function signatures, type, scope) over 9 qualified names and of B_K+1 registrations over 3 of them, then every query on each name
#include "types.h"
#include <algorithm>
#include <map>
#include <set>
using namespace reflect;
using namespace ht;
#ifndef B_N
#define B_N 3
#endif
#ifndef B_K
#define B_K 2
#endif

namespace {
struct Str { char c[B_N + 1]; unsigned n; std::string str() const { return std::string(c, n); } };
Str symName()
{
    Str s;
    s.n = sym_choose(B_N + 1, "length");
    sym_bytes(s.c, B_N, "name");
    s.c[B_N] = 0;
    return s;
}
bool eq(const std::string& s, const char* p, unsigned n)
{
    bool same = s.size() == n;
    for (unsigned i = 0; same && i < n; ++i) same &= s[i] == p[i];
    return same;
}
} // namespace

extern "C" void prop_nested()
{
    static const unsigned depths[] = { 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 4096, 32768, 65535, 65536, 65537 };
    unsigned d = depths[sym_choose(sizeof(depths) / sizeof(depths[0]), "depth")];
    unsigned char c = (unsigned char)sym_u(8, "char");
    sym_assume(c != '<' && c != '>' && c != ':');
    std::string inner = std::string("a::") + char(c) + "b";
    unsigned shape = sym_choose(4, "shape");
    std::string id = shape == 3 ? std::string(d, 'x') + char(c) + std::string(d, 'y') : "t" + std::string(d, '<') + inner + std::string(d, '>');
    if (shape == 1) id = "t<" + id + ",u::v" + ">";
    if (shape == 2) id += "x";
    std::string name = "first::" + id + "::last";
    auto h = Scope::head(name); sym_check(h.first == "first" && h.second == id + "::last", "first component of a long name");
    auto h2 = Scope::head(h.second); sym_check(h2.first == id && h2.second == "last", "nested names aren't split");
    auto t = Scope::tail(name); sym_check(t.first == "last" && t.second == "first::" + id, "last component of a long name");
    auto t2 = Scope::tail(t.second); sym_check(t2.first == id && t2.second == "first", "nested names aren't split");
    sym_check(Scope::join(t.second, t.first) == name, "joining gives the name back");
    if (shape == 3) return;
    bool close = sym_choose(2, "unbalanced");
    std::string bad = close ? id + ">" : "<" + id;
    sym_check(raises([&] { Scope::head(bad); }) && raises([&] { Scope::tail(bad); }), "unbalanced names are refused");
}

extern "C" void prop_head()
{
    sym_expect("split"); sym_expect("whole"); sym_expect("error");
    Str s = symName();
    // reference
    int depth = 0; unsigned end = s.n, rest = s.n; bool bad = false;
    for (unsigned i = 0; i < s.n; ++i) {
        if (s.c[i] == '<') depth++;
        else if (s.c[i] == '>') depth--;
        else if (s.c[i] == ':' && depth == 0) {
            if (i + 1 < s.n && s.c[i + 1] == ':') { end = i; rest = i + 2; }
            else bad = true;
            break;
        }
    }
    bad |= depth != 0;
    std::pair<std::string, std::string> r; std::string name = s.str();
    bool err = raises([&] { r = Scope::head(name); });
    sym_cover(bad ? "error" : end < s.n ? "split" : "whole");
    sym_check(err == bad, "splitting off the first component fails iff the component is malformed");
    if (err) return;
    sym_check(eq(r.first, s.c, end), "first component");
    sym_check(eq(r.second, s.c + rest, s.n - rest), "remaining components");
    if (end) sym_check(eq(Scope::join(r.first, r.second), s.c, r.second.empty() && end == s.n ? s.n + 2 : s.n) || r.second.empty(), "joining gives the name back");
}

extern "C" void prop_tail()
{
    sym_expect("split"); sym_expect("whole"); sym_expect("error");
    Str s = symName();
    int depth = 0; unsigned start = 0, rest = 0; bool bad = false, split = false;
    for (unsigned i = s.n; i-- > 0;) {
        if (s.c[i] == '<') depth--;
        else if (s.c[i] == '>') depth++;
        else if (s.c[i] == ':' && depth == 0) {
            if (i > 0 && s.c[i - 1] == ':') { start = i + 1; rest = i - 1; split = true; }
            else bad = true;
            break;
        }
    }
    bad |= depth != 0;
    std::pair<std::string, std::string> r; std::string name = s.str();
    bool err = raises([&] { r = Scope::tail(name); });
    sym_cover(bad ? "error" : split ? "split" : "whole");
    sym_check(err == bad, "splitting off the last component fails iff the component is malformed");
    if (err) return;
    sym_check(eq(r.first, s.c + start, s.n - start), "last component");
    sym_check(eq(r.second, s.c, rest), "preceding components");
    if (rest) sym_check(eq(Scope::join(r.second, r.first), s.c, s.n), "joining gives the name back");
}

extern "C" void prop_join()
{
    Str a = symName(); char b[2]; sym_bytes(b, 2, "tail");
    std::string r = Scope::join(a.str(), std::string(b, 2));
    unsigned off = a.n ? a.n + 2 : 0;
    sym_check(r.size() == off + 2 && eq(r.substr(0, a.n), a.c, a.n) && r[off] == b[0] && r[off + 1] == b[1], "join keeps both parts");
    if (a.n) sym_check(r[a.n] == ':' && r[a.n + 1] == ':', "join separates with ::");
}

namespace {
const char* const names[9] = { "a", "a::b", "a::b::c", "b", "a::c", "b::a", "T<a::b>", "a::T<b::c>", "c::d::e" };
const bool loadable[9] = { false, false, true, false, true, true, true, true, true };     // those that can all live in the registry
std::vector<std::string> parts(const std::string& s)
{
    std::vector<std::string> r(1); int d = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '<') d++;
        if (s[i] == '>') d--;
        if (s[i] == ':' && !d) { ++i; r.push_back(""); continue; }
        r.back() += s[i];
    }
    return r;
}
std::string prefix(const std::vector<std::string>& p, size_t n)
{
    std::string r;
    for (size_t i = 0; i < n; ++i) r += (i ? "::" : "") + p[i];
    return r;
}
typedef std::set<std::string> Set;
struct Model
{
    Set scopes, types; std::map<std::string, int> fns[2];      // fns: by signature, tag
    void addScope(const std::string& name) { auto p = parts(name); for (size_t i = 1; i <= p.size(); ++i) scopes.insert(prefix(p, i)); }
    bool isFn(const std::string& n) const { return fns[0].count(n) || fns[1].count(n); }
    bool addFn(const std::string& n, int sig, int tag)
    {
        auto p = parts(n);
        if (p.size() > 1) addScope(prefix(p, p.size() - 1));
        return fns[sig].emplace(n, tag).second;
    }
    bool addType(const std::string& n)
    {
        auto p = parts(n);
        for (size_t i = 1; i < p.size(); ++i) if (types.count(prefix(p, i)) || isFn(prefix(p, i))) return false;
        if (p.size() > 1) addScope(prefix(p, p.size() - 1));
        types.insert(n);
        return true;
    }
};
Set toSet(const std::vector<std::string>& v) { Set s(v.begin(), v.end()); sym_check(s.size() == v.size(), "a name is listed twice"); return s; }

void compare(Scope& root, const Model& m)
{
    const Scope& croot = root;
    Set fn;
    for (auto& f : m.fns[0]) fn.insert(f.first);
    for (auto& f : m.fns[1]) fn.insert(f.first);
    sym_check(toSet(croot.functions(true)) == fn, "listing of all functions");
    sym_check(toSet(croot.types(true)) == m.types, "listing of all types");
    Set top;
    for (auto& s : m.scopes) if (parts(s).size() == 1) top.insert(s);
    sym_check(toSet(croot.scopes()) == top, "listing of scopes");
    top.clear();
    for (auto& s : fn) if (parts(s).size() == 1) top.insert(s);
    sym_check(toSet(croot.functions()) == top, "listing of own functions");
    top.clear();
    for (auto& s : m.types) if (parts(s).size() == 1) top.insert(s);
    sym_check(toSet(croot.types()) == top, "listing of own types");
}
} // namespace

template<int K, int NAMES>
void scope_history()
{
    preload();
    sym_expect("refused"); sym_expect("function"); sym_expect("type"); sym_expect("scope");
    long loads = 0;
    for (int i = 0; i < 9; ++i) if (loadable[i]) Registry::add(names[i], [&](Type* t) { loads++; t->addTrait("loaded"); });
    Scope root; const Scope& croot = root; Model m;
    for (int k = 0; k < K; ++k) {
        unsigned op = sym_choose(4, "op"); std::string n = names[sym_choose(NAMES, "name")];
        bool ok = true, err = false; int tag = k + 1;
        switch (op) {
        case 0: ok = m.addFn(n, 0, tag); err = raises([&] { root.addFunction(n, [=]() -> int { return tag; }); }); break;
        case 1: ok = m.addFn(n, 1, tag); err = raises([&] { root.addFunction(n, [=](int i) -> int { return tag * 100 + i; }); }); break;
        case 2: ok = m.addType(n); err = raises([&] { root.addType(n); }); break;
        default: {
            m.addScope(n); Scope* s = nullptr;
            err = raises([&] { s = root.scope(n); });
            sym_check(s && s->id() == n, "a created scope has the full name it was asked for");
            break;
        }
        }
        if (!ok) sym_cover("refused");
        sym_check(err == !ok, "a registration is refused iff it conflicts with an earlier one");
        compare(root, m);
    }
    for (unsigned i = 0; i < NAMES; ++i) {
        std::string n = names[i]; auto p = parts(n);
        bool has = m.scopes.count(n), got = false;
        sym_check(!raises([&] { got = croot.hasScope(n); }) && got == has, "hasScope");
        const Scope* s = nullptr;
        sym_check(raises([&] { s = croot.scope(n); }) == !has, "looking up an unknown scope raises an error");
        if (has) {
            sym_cover("scope");
            sym_check(s->id() == n && s->name() == p.back() && !s->isGlobal(), "scope name");
            sym_check(p.size() == 1 ? s->parent() == &root : s->parent() == croot.scope(prefix(p, p.size() - 1)), "scope parent");
        }
        int tag0 = m.fns[0].count(n) ? m.fns[0].at(n) : 0, tag1 = m.fns[1].count(n) ? m.fns[1].at(n) : 0;
        sym_check(!raises([&] { got = croot.hasFunction(n); }) && got == (tag0 || tag1), "hasFunction");
        const Overloads* o = nullptr;
        sym_check(raises([&] { o = &croot.function(n); }) == !(tag0 || tag1), "looking up an unknown function raises an error");
        if (o) sym_check(o->size() == size_t(!!tag0 + !!tag1), "overloads of a function");
        int r = -1;
        bool err = raises([&] { r = croot.call<int>(n); });
        sym_check(tag0 ? !err && r == tag0 : err, "calling a function by qualified name");
        err = raises([&] { r = croot.call<int>(n, 7); });
        sym_check(tag1 ? !err && r == tag1 * 100 + 7 : err, "calling an overload by qualified name");
        if (tag0) sym_cover("function");

        bool inner = false;                       // goes through a type, unsupported
        for (size_t k = 1; k < p.size(); ++k) inner |= m.types.count(prefix(p, k));
        err = raises([&] { got = root.hasType(n); });
        sym_check(inner || (!err && got == bool(m.types.count(n))), "hasType");
        const Type* t = nullptr; long before = loads;
        err = raises([&] { t = root.type(n); });
        if (!inner && (loadable[i] || !m.types.count(n))) {
            sym_check(err == !m.types.count(n), "looking up an unknown type raises an error");
            if (t) {
                sym_cover("type");
                sym_check(t->id() == n && t->is("loaded") && loads == before + 1, "type lookup loads the type of that name");
                sym_check(root.type(n) == t && Registry::get(n) == t && loads == before + 1, "type identity");
            }
        }
    }
    compare(root, m);
}

extern "C" void prop_scope() { scope_history<B_K, 9>(); }
extern "C" void prop_scope_deep() { scope_history<B_K + 1, 3>(); }
