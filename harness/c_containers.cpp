// Vectors, maps and strings.
// @check C20 libs=core,prims,std entries=prop_vector,prop_map,prop_unordered,prop_string,prop_types quick=-DB_K=2,-DB_N=2 thorough=-DB_K=3,-DB_N=3
// @bounds C20 vectors: every sequence of B_K operations out of 15 kinds on a vector of 0 to 2 objects, arbitrary contents and 64 bit indexes; maps: every sequence of B_N+1 operations out of 6 kinds, arbitrary 64 bit keys (std::map) or keys chosen among 4 colliding ones (unordered); texts of up to 20 arbitrary bytes
#include "types.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/pointer.h"
#include <unordered_map>
using namespace reflect;
using namespace ht;
#ifndef B_K
#define B_K 2
#endif
#ifndef B_N
#define B_N 2
#endif
typedef std::vector<P> VP;
typedef std::map<int64_t, P> MP;
typedef std::unordered_map<std::string, P> UP;

static void load()
{
    preload();
    type<VP>(); type<MP>(); type<UP>(); type<std::vector<int64_t>>(); type<std::vector<std::string>>(); type<size_t>(); type<unsigned>();
}

extern "C" void prop_vector()
{
    load();
    long live = Counted::live;
    {
        int64_t x = sym_i64("x");
        int64_t m[16]; size_t n = sym_choose(3, "size");
        VP vec; vec.reserve(2);
        for (size_t i = 0; i < n; ++i) { m[i] = x ^ int64_t(i + 100); vec.push_back(P(m[i])); }
        Value v(vec); const Value cv(((const VP&)vec));
        for (int k = 0; k < B_K; ++k) {
            unsigned op = sym_choose(k ? 16 : 15, "op");
            if (op == 15) break;
            int64_t y = x ^ (int64_t(k + 1) << 9);
            switch (op) {
            case 0: { P p(y); v.call<void>("push_back", p); sym_check(p.p == y, "appending an l-value copies it"); m[n++] = y; break; }
            case 1: { const P p(y); v.call<void>("push_back", p); sym_check(p.p == y, "appending a const object copies it"); m[n++] = y; break; }
            case 2: { P p(y); v.call<void>("push_back", std::move(p)); sym_check(p.p == -1, "appending an r-value moves it"); m[n++] = y; break; }
            case 3: { P p(y); Value e(p); v.call<void>("push_back", e); sym_check(p.p == y, "appending the object of a value copies it"); m[n++] = y; break; }
            case 4: { P p(y); Value e(p); v.call<void>("push_back", e.rvalue()); sym_check(p.p == -1, "appending an r-value view moves it"); m[n++] = y; break; }
            case 5: v.call<void>("clear"); n = 0; break;
            case 6: { size_t s = sym_choose(4, "new size"); v.call<void>("resize", s); for (size_t i = n; i < s; ++i) m[i] = 0; n = s; break; }
            case 7: { size_t i = sym_choose(4, "index"); if (i >= n) break; Value e = v[i]; sym_check(e.value() == &vec[i] && e.type() == type<P>() && !e.isConst(), "element access"); e.assign(P(y)); m[i] = y; break; }
            case 8: { size_t i = sym_u(64, "i"); Value e; bool err = raises([&] { e = v.call<Value>("at", i); }); sym_check(err == (i >= n), "checked access");
                if (!err) sym_check(e.value() == &vec[i] && e.isConst() && e.get<P>().p == vec[i].p, "checked access"); break; }
            case 9: { size_t i = sym_u(64, "i"); bool err = raises([&] { cv.call<Value>("at", i); }); sym_check(err == (i >= n), "checked access to a const vector"); break; }
            case 10: { sym_check(raises([&] { cv.call<void>("clear"); }) && raises([&] { cv[size_t(0)]; }) && raises([&] { cv.call<void>("push_back", P(y)); }) && raises([&] { cv.call<void>("resize", size_t(1)); }), "a const vector cannot be modified"); break; }
            case 11: { Value c = v.copy(); const VP& o = c.get<VP>(); sym_check(o.size() == n && (n == 0 || o.data() != vec.data()), "deep copy"); for (size_t i = 0; i < n; ++i) sym_check(o[i].p == m[i], "content of a copy"); c.call<void>("clear"); break; }
            case 12: { VP o; o.push_back(P(y)); v.assign(o); sym_check(o.size() == 1, "assignment copies"); m[0] = y; n = 1; break; }
            case 13: { VP o; o.push_back(P(y)); o.push_back(P(~y)); v.assign(std::move(o)); sym_check(o.empty(), "assignment moves"); m[0] = y; m[1] = ~y; n = 2; break; }
            default: { if (!n) break; Value e = v.call<Value>("at", size_t(0)); v.call<void>("push_back", e); m[n++] = m[0]; break; }
            }
            sym_check(v.call<size_t>("size") == n && cv.call<size_t>("size") == n, "size");
        }
        sym_check(vec.size() == n, "size of the vector");
        for (size_t i = 0; i < n && i < vec.size(); ++i) { vec[i].check(); sym_check(vec[i].p == m[i], "content"); }
        sym_check(Counted::live == live + long(n), "elements alive");
    }
    sym_check(Counted::live == live, "everything is released");
}

namespace {
template<typename M, typename K, unsigned NK> struct Maps
{
    M map; K keys[NK]; int64_t val[NK]; bool has[NK]; bool sorted;
    size_t count() { size_t n = 0; for (unsigned i = 0; i < NK; ++i) n += has[i]; return n; }
    int find(const K& k) { for (unsigned i = 0; i < NK; ++i) if (has[i] && keys[i] == k) return i; return -1; }
    void run(int64_t x, int steps)
    {
        for (bool& h : has) h = false;
        Value v(map); const Value cv((const M&)map);
        for (int k = 0; k < steps; ++k) {
            unsigned op = sym_choose(k ? 7 : 6, "op"); if (op == 6) break;
            unsigned q = k ? sym_choose(k < int(NK) ? k + 1 : NK, "key") : 0;
            const K& key = keys[q];
            int at = find(key);
            int64_t y = x ^ (int64_t(k + 1) << 9);
            switch (op) {
            case 0: { Value e = v[key]; sym_check(e.type() == type<P>() && !e.isConst() && e.get<P>().p == (at < 0 ? 0 : val[at]), "element access");
                sym_check(map.count(key) == 1 && e.value() == &map[key], "identity of the element");
                e.assign(P(y)); if (at < 0) { at = q; has[q] = true; } val[at] = y; break; }
            case 1: { size_t c = v.call<size_t>("count", key), d = cv.call<size_t>("count", key); sym_check(c == (at >= 0) && d == c, "count"); break; }
            case 2: { Value e; bool err = raises([&] { e = (q & 1 ? cv : (const Value&)v).template call<Value>("at", key); }); sym_check(err == (at < 0), "checked access");
                if (!err) sym_check(e.value() == &map.find(key)->second && e.isConst() && e.get<P>().p == val[at], "checked access"); break; }
            case 3: { Value r = cv.call<Value>("keys"); const std::vector<K>& ks = r.get<std::vector<K>>(); sym_check(ks.size() == count(), "number of keys");
                for (unsigned i = 0; i < NK; ++i) { unsigned f = 0; for (const K& e : ks) f += e == keys[i]; if (has[i]) sym_check(f == 1, "every key is listed once"); }
                if (sorted) for (size_t i = 1; i < ks.size(); ++i) sym_check(ks[i - 1] < ks[i], "keys of an ordered map are sorted"); break; }
            case 4: { Value c = v.copy(); const M& o = c.get<M>(); sym_check(o.size() == count(), "deep copy"); for (unsigned i = 0; i < NK; ++i) if (has[i]) sym_check(o.find(keys[i]) != o.end() && o.find(keys[i])->second.p == val[i] && &o.find(keys[i])->second != &map[keys[i]], "content of a copy"); break; }
            default: sym_check(raises([&] { cv[key]; }) && raises([&] { cv.assign(M()); }), "a const map cannot be modified"); break;
            }
            sym_check(v.call<size_t>("size") == count(), "size");
        }
        sym_check(map.size() == count(), "size of the map");
        for (unsigned i = 0; i < NK; ++i) if (has[i]) { auto it = map.find(keys[i]); sym_check(it != map.end(), "key is present"); it->second.check(); sym_check(it->second.p == val[i], "content"); }
    }
};
}

extern "C" void prop_map()
{
    load();
    long live = Counted::live;
    {
        int64_t x = sym_i64("x");
        Maps<MP, int64_t, 3> m; m.sorted = true;
        for (auto& k : m.keys) k = sym_i64("key");
        m.run(x, B_N + 1);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_unordered()
{
    load();
    long live = Counted::live;
    {
        int64_t x = sym_i64("x");
        Maps<UP, std::string, 4> m; m.sorted = false;
        m.keys[0] = "a"; m.keys[1] = ""; m.keys[2] = std::string("a\0", 2); m.keys[3] = "a long key that needs its own memory";
        m.run(x, B_N + 1);
    }
    sym_check(Counted::live == live, "everything is released");
}
extern "C" void prop_string()
{
    load();
    char c[20]; sym_bytes(c, 20, "text");
    size_t n = sym_choose(21, "length");
    std::string s(c, n); const std::string& cs = s;
    Value v(s), cv(cs);
    size_t a = v.call<size_t>("size"), b = cv.call<size_t>("size");
    sym_check(a == n && b == n, "size");
    Value d = cv.copy();
    sym_check(d.isStored() && d.get<std::string>() == s, "deep copy");
    v.assign(std::string("other"));
    sym_check(s == "other" && d.get<std::string>().size() == n && !__builtin_memcmp(d.get<std::string>().data(), c, n), "assignment");
    v.assign(d);
    sym_check(s.size() == n && !__builtin_memcmp(s.data(), c, n), "assignment from a value");
    Value e = type<std::string>()->construct(s), z = type<std::string>()->construct(), w = type<std::string>()->alloc();
    sym_check(e.get<std::string>() == s && z.get<std::string>().empty() && w.get<std::string*>()->empty(), "construction");
    delete w.get<std::string*>();
    Value mv = d.move();
    sym_check(d.isVoid() && mv.get<std::string>() == s, "move");
    sym_check(raises([&] { cv.assign(std::string()); }) && s.size() == n, "a const text cannot be assigned");
}
extern "C" void prop_types()
{
    load();
    const Type* v = type<VP>();
    sym_check(v->is("list") && !v->is("map") && v->getValue<const Type*>("valueType") == type<P>() && type("std::vector<ht::P>") == v, "vector type");
    const Type* m = type<MP>(); const Type* u = type<UP>();
    sym_check(m->is("map") && !m->is("list") && m->getValue<const Type*>("keyType") == type<int64_t>() && m->getValue<const Type*>("valueType") == type<P>(), "map type");
    sym_check(u->is("map") && u->getValue<const Type*>("keyType") == type<std::string>() && u->getValue<const Type*>("valueType") == type<P>(), "unordered map type");
    sym_check(m->id() == "std::map<" + type<int64_t>()->id() + ",ht::P>" && u->id() == "std::unordered_map<std::string,ht::P>" && type(m->id()) == m && type(u->id()) == u, "names of maps");
    const Type* vv = type<std::vector<VP>>();
    sym_check(vv->getValue<const Type*>("valueType") == v && vv->id() == "std::vector<std::vector<ht::P>>" && type<std::string>()->is("string"), "nested vector type");
    sym_check(v->isCopiable() && v->isMovable() && m->isCopiable() && m->isMovable() && u->isCopiable() && type<std::string>()->isCopiable(), "containers can be copied and moved");
    std::vector<VP> a(2); a[1].push_back(P(sym_i64("x")));
    Value e = Value(a)[size_t(1)][size_t(0)];
    sym_check(e.value() == &a[1][0] && e.get<P>().p == a[1][0].p, "nested access");
}
