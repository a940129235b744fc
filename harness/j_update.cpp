// Parsing into targets which have content.
// @check J19 libs=core,prims,std,json entries=prop_update_map,prop_update_list,prop_update_object,prop_update_nested,prop_update_refused quick=-DB_K=2 thorough=-DB_K=3
// @bounds J19 maps with every subset of 3 keys, up to B_K members among 4 keys; lists of up to 2 items, up to B_K further ones; objects with 7 kinds of field, up to B_K members; two documents one after the other for lists of objects, maps of lists, maps of objects and lists of maps; documents refused at each of B_K members; arbitrary values
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <sstream>
#include <cstring>
#include <cstdio>
#ifndef B_K
#define B_K 2
#endif
using namespace reflect;
using namespace reflect::json;

namespace ju {
struct In { int64_t n, m; In() : n(100), m(200) {} };
struct Tgt
{
    int64_t n; bool b; std::string s; std::vector<int64_t> l; std::map<std::string, int64_t> m; In in; std::shared_ptr<In> p; double d;
    Tgt() : n(0), b(false), d(0) {}
};
}
typedef std::map<std::string, int64_t> IntMap;
typedef std::map<std::string, ju::In> InMap;
typedef std::map<std::string, std::vector<int64_t>> ListMap;
reflectType(ju::In) { reflectPlumbing(); reflectAlloc(); reflectField(n); reflectField(m); }
reflectType(ju::Tgt) { reflectPlumbing(); reflectField(n); reflectField(b); reflectField(s); reflectField(l); reflectField(m); reflectField(in); reflectField(p); reflectField(d); }

namespace {
using namespace ju;
bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
std::string dec(int64_t v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", long(v)); return std::string(b, n); }
int64_t small(const char* name) { return int8_t(sym_u(8, name)); }
template<typename T> bool tryParse(const std::string& doc, T& v)
{
    bool ok = false;
    bool threw = raises([&] { auto e = json::parse(doc, v); ok = !e; });
    sym_check(!threw, "parsing raised");
    return ok;
}
// what each of four keys holds
struct Model
{
    bool has[4]; int64_t v[4];
    Model() { for (int i = 0; i < 4; ++i) { has[i] = false; v[i] = 0; } }
};
const char* const names[] = { "a", "b", "c", "d" };
void checkMap(const IntMap& m, const Model& e)
{
    size_t n = 0;
    for (int i = 0; i < 4; ++i) {
        auto it = m.find(names[i]);
        sym_check((it != m.end()) == e.has[i], "keys of an updated map");
        if (it != m.end()) { ++n; sym_check(it->second == e.v[i], "value of an updated map"); }
    }
    sym_check(m.size() == n, "size of an updated map");
}
void fill(IntMap& m, Model& e)
{
    unsigned set = sym_choose(8, "keys in the map");
    for (int i = 0; i < 3; ++i) if (set >> i & 1) { int64_t v = sym_i64("old value"); m[names[i]] = e.v[i] = v; e.has[i] = true; }
}
}

extern "C" void prop_update_map()
{
    sym_expect("replaced"); sym_expect("added"); sym_expect("repeated");
    preload();
    IntMap m; Model e; fill(m, e);
    size_t n = sym_choose(B_K + 1, "members");
    std::string doc = "{"; unsigned seen = 0;
    for (size_t i = 0; i < n; ++i) {
        unsigned k = sym_choose(4, "key");
        int64_t v = i ? int64_t(1000 + i) : small("value");
        if (seen >> k & 1) sym_cover("repeated"); else sym_cover(e.has[k] ? "replaced" : "added");
        seen |= 1u << k;
        e.has[k] = true; e.v[k] = v;
        doc += std::string(i ? ",\"" : "\"") + names[k] + "\":" + dec(v);
    }
    doc += "}";
    sym_check(tryParse(doc, m), "well formed map was refused");
    checkMap(m, e);
}

extern "C" void prop_update_list()
{
    sym_expect("appended");
    preload();
    std::vector<int64_t> l, e; std::vector<std::string> t, te;
    bool text = sym_choose(2, "texts");
    size_t had = sym_choose(3, "items before"), n = sym_choose(B_K + 1, "items"), docs = 1 + sym_choose(2, "documents");
    for (size_t i = 0; i < had; ++i) { int64_t v = sym_i64("old item"); if (text) { t.push_back(i ? "y" : "x"); te = t; } else { l.push_back(v); e = l; } }
    for (size_t d = 0; d < docs; ++d) {
        std::string doc = "[";
        for (size_t i = 0; i < n; ++i) {
            int64_t v = i || d ? int64_t(10 * d + i) : small("item");
            std::string s = "k" + dec(10 * d + i);
            if (text) { te.push_back(s); doc += (i ? ",\"" : "\"") + s + "\""; } else { e.push_back(v); doc += (i ? "," : "") + dec(v); }
        }
        doc += "]";
        sym_check(text ? tryParse(doc, t) : tryParse(doc, l), "well formed list was refused");
        sym_check(l.size() == e.size() && l == e, "items of an updated list");
        sym_check(t.size() == te.size() && t == te, "texts of an updated list");
        if (had && n) sym_cover("appended");
    }
}

extern "C" void prop_update_object()
{
    sym_expect("done"); sym_expect("twice"); sym_expect("in place");
    preload(); type<Tgt>();
    Tgt o;
    int64_t n0 = sym_i64("n"), in0 = sym_i64("in.n"), in1 = sym_i64("in.m"), l0 = sym_i64("item"), m0 = sym_i64("value of a"), p0 = sym_i64("p->n");
    bool b0 = sym_choose(2, "b"), set = sym_choose(2, "p is set");
    o.n = n0; o.b = b0; o.s = "old text"; o.l.push_back(l0); o.m["a"] = m0; o.in.n = in0; o.in.m = in1; o.d = 1.5;
    if (set) { o.p.reset(new In); o.p->n = p0; }
    Tgt e = o; In pe; pe.n = set ? p0 : 100; bool hasp = set; In* before = o.p.get();
    size_t k = sym_choose(B_K + 1, "members");
    std::string doc = "{"; unsigned seen = 0;
    for (size_t i = 0; i < k; ++i) {
        unsigned f = sym_choose(8, "field");
        int64_t v = i ? int64_t(30 + i) : small("value"); std::string t = dec(v), item;
        switch (f) {
        case 0: item = "\"n\":" + t; e.n = v; break;
        case 1: item = b0 ? "\"b\":false" : "\"b\":true"; e.b = !b0; break;
        case 2: item = "\"s\":\"\\u0041" + dec(i) + "\""; e.s = "A" + dec(i); break;
        case 3: item = "\"l\":[" + t + ",7]"; e.l.push_back(v); e.l.push_back(7); break;
        case 4: item = std::string("\"m\":{\"") + names[i % 2] + "\":" + t + "}"; e.m[names[i % 2]] = v; break;
        case 5: item = i % 2 ? "\"in\":{\"m\":" + t + "}" : "\"in\":{\"n\":" + t + "}"; (i % 2 ? e.in.m : e.in.n) = v; break;
        case 6: item = "\"p\":{\"m\":" + t + "}"; pe.m = v; hasp = true; break;
        case 7: item = "\"d\":-0.25"; e.d = -0.25; break;
        }
        if (seen >> f & 1) sym_cover("twice");
        seen |= 1u << f;
        doc += (i ? "," : "") + item;
    }
    doc += "}";
    sym_check(tryParse(doc, o), "well formed object was refused");
    sym_check(o.n == e.n, "number"); sym_check(o.b == e.b, "boolean"); sym_check(same(o.s, e.s), "text"); sym_check(o.d == e.d, "float");
    sym_check(o.l.size() == e.l.size() && o.l == e.l, "list of an updated object");
    sym_check(o.m.size() == e.m.size() && o.m == e.m, "map of an updated object");
    sym_check(o.in.n == e.in.n && o.in.m == e.in.m, "object in an updated object");
    sym_check(bool(o.p) == hasp, "pointer of an updated object");
    if (hasp) sym_check(o.p->n == pe.n && o.p->m == pe.m, "object behind a pointer of an updated object");
    if (set) { sym_check(o.p.get() == before, "object behind a pointer was replaced"); sym_cover("in place"); }
    sym_cover("done");
}

extern "C" void prop_update_nested()
{
    sym_expect("list of objects"); sym_expect("map of objects"); sym_expect("map of lists"); sym_expect("list of maps");
    preload(); type<In>();
    int64_t old = sym_i64("old"), v = small("new");
    bool second = sym_choose(2, "another document");
    switch (sym_choose(4, "target")) {
    case 0: {
        std::vector<In> l(1); l[0].n = old;
        sym_check(tryParse("[{\"n\":" + dec(v) + "},{}]", l), "list of objects was refused");
        if (second) sym_check(tryParse("[{\"m\":5}]", l), "list of objects was refused");
        sym_check(l.size() == (second ? 4 : 3) && l[0].n == old && l[0].m == 200 && l[1].n == v && l[1].m == 200 && l[2].n == 100 && l[2].m == 200, "list of objects");
        if (second) sym_check(l[3].n == 100 && l[3].m == 5, "list of objects");
        sym_cover("list of objects");
        break;
    }
    case 1: { // an entry is replaced, not updated
        InMap m; m["a"].n = old; m["b"].m = old;
        sym_check(tryParse("{\"a\":{\"m\":" + dec(v) + "},\"c\":{}}", m), "map of objects was refused");
        sym_check(m.size() == 3 && m["a"].n == 100 && m["a"].m == v && m["b"].n == 100 && m["b"].m == old && m["c"].n == 100 && m["c"].m == 200, "map of objects");
        if (second) {
            sym_check(tryParse("{\"c\":{\"n\":9},\"c\":{\"m\":8}}", m), "map of objects was refused");
            sym_check(m.size() == 3 && m["a"].m == v && m["b"].m == old && m["c"].n == 100 && m["c"].m == 8, "map of objects");
        }
        sym_cover("map of objects");
        break;
    }
    case 2: {
        ListMap m; m["a"].push_back(old); m["b"].push_back(old);
        sym_check(tryParse("{\"a\":[" + dec(v) + ",1],\"c\":[]}", m), "map of lists was refused");
        sym_check(m.size() == 3 && m["a"].size() == 2 && m["a"][0] == v && m["a"][1] == 1 && m["b"].size() == 1 && m["b"][0] == old && m["c"].empty(), "map of lists");
        if (second) { sym_check(tryParse("{\"c\":[2]}", m), "map of lists was refused"); sym_check(m.size() == 3 && m["c"].size() == 1 && m["c"][0] == 2 && m["a"].size() == 2, "map of lists"); }
        sym_cover("map of lists");
        break;
    }
    case 3: {
        std::vector<IntMap> l(1); l[0]["a"] = old;
        sym_check(tryParse("[{\"b\":" + dec(v) + "}]", l), "list of maps was refused");
        if (second) sym_check(tryParse("[]", l), "list of maps was refused");
        sym_check(l.size() == 2 && l[0].size() == 1 && l[0]["a"] == old && l[1].size() == 1 && l[1]["b"] == v, "list of maps");
        sym_cover("list of maps");
        break;
    }
    }
}

// what was read before a document turned out to be wrong stays, what it names after is untouched
extern "C" void prop_update_refused()
{
    sym_expect("map"); sym_expect("list"); sym_expect("object");
    preload(); type<Tgt>();
    size_t at = sym_choose(B_K + 1, "place of the error");
    int64_t v = small("value");
    std::string bad = "?";
    switch (sym_choose(3, "error")) { case 0: bad = "\"x\""; break; case 1: bad = "}"; break; case 2: bad = "[1]"; break; }
    switch (sym_choose(3, "target")) {
    case 0: {
        IntMap m; Model e; fill(m, e);
        std::string doc = "{";
        for (size_t i = 0; i <= B_K; ++i) {
            doc += std::string(i ? ",\"" : "\"") + names[i] + "\":" + (i == at ? bad : dec(v));
            if (i < at) { e.has[i] = true; e.v[i] = v; }
        }
        sym_check(!tryParse(doc + "}", m), "malformed map was accepted");
        checkMap(m, e);
        sym_cover("map");
        break;
    }
    case 1: {
        std::vector<int64_t> l(1, 77);
        std::string doc = "[";
        for (size_t i = 0; i <= B_K; ++i) doc += (i ? "," : "") + (i == at ? bad : dec(v));
        sym_check(!tryParse(doc + "]", l), "malformed list was accepted");
        sym_check(l.size() == at + 1 && l[0] == 77, "items of a refused list");
        for (size_t i = 0; i < at; ++i) sym_check(l[i + 1] == v, "items of a refused list");
        sym_cover("list");
        break;
    }
    case 2: {
        Tgt o; o.n = 1; o.in.n = 2; o.in.m = 3; o.d = 4;
        static const char* const keys[] = { "\"in\":{\"m\":", "\"n\":", "\"m\":{\"a\":", "\"in\":{\"n\":" };
        std::string doc = "{";
        for (size_t i = 0; i <= B_K; ++i) doc += std::string(i ? "," : "") + keys[i] + (i == at ? bad : dec(v)) + (i == 1 ? "" : "}");
        sym_check(!tryParse(doc + "}", o), "malformed object was accepted");
        sym_check(o.in.m == (at > 0 ? v : o.in.m) && (at == 1 || o.n == (at > 1 ? v : 1)) && o.m.size() == (at > 2 ? 1 : 0) && (at == 3 || o.in.n == 2) && o.d == 4 && o.l.empty() && !o.p, "fields of a refused object");
        sym_cover("object");
        break;
    }
    }
}
