// Keys, pointers, untyped values, omitted fields and custom functions.
// @check J10 libs=core,prims,std,json entries=prop_keys,prop_keys_print,prop_keys_clash,prop_keys_unknown quick=-DB_K=2 thorough=-DB_K=3
// @bounds J10 every document of up to B_K members chosen among the keys of plain, aliased, skipped, inherited, shadowed, list, map and object fields, names which are no key and every key of up to 2 free ASCII characters, arbitrary integers as values; ten kinds of value for four keys which are no key; pairs of fields under the same key
// @check J11 libs=core,prims,std,json entries=prop_pointer,prop_null_other,prop_null_print quick=-DB_K=3 thorough=-DB_K=4
// @bounds J11 every sequence of up to B_K documents (null, object, object with one key, malformed) read into the same raw, shared and unique pointer and pointer to integer and text; null into objects, lists, maps and their fields; null pointers on their own and as field, element and map value
// @check J13 libs=core,prims,std,json entries=prop_tree,prop_scalar quick=-DB_N=7 thorough=-DB_N=9
// @bounds J13 every well formed document of up to B_N tokens of brackets, separators, two keys, null, true, integer, float and text; scalars with arbitrary 64 bit integers, texts of up to 3 ASCII characters and numbers of 3 digits
// @check J16 libs=core,prims,std,json entries=prop_empty,prop_empty_pointer quick=-DB_F=2 thorough=-DB_F=3
// @bounds J16 an object with 9 kinds of field each plain, skipped when empty and aliased: every choice of up to B_F of the kinds with non empty content of arbitrary value, every style; pointers to each kind of content, empty or not
// @check J17 libs=core,prims,std,json entries=prop_custom,prop_custom_error,prop_traits quick= thorough=
// @bounds J17 a type with custom functions on its own, as field, inherited, in lists, maps, raw, shared and unique pointers and nested in each other, arbitrary 64 bit content; failures of the custom functions at each of these places; every combination of three declarations of a field
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <unordered_map>
#include <sstream>
#include <cstring>
#include <cstdio>
#ifndef B_K
#define B_K 2
#endif
#ifndef B_N
#define B_N 7
#endif
#ifndef B_F
#define B_F 2
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Inner { int64_t n; int64_t m; Inner() : n(100), m(200) {} };
struct Old { int64_t old, both; Old() : old(1), both(2) {} };
struct Obj : Old
{
    int64_t plain, named, hidden, both; Inner inner; std::vector<int64_t> list; std::map<std::string, int64_t> map;
    Obj() : plain(11), named(12), hidden(13), both(14) {}
};
struct Clash1 { int64_t a, b; Clash1() : a(1), b(2) {} };
struct Clash2 { int64_t a, b; Clash2() : a(1), b(2) {} };
struct Clash3 { int64_t a, b; Clash3() : a(1), b(2) {} };

struct Ptrs { Inner* raw; std::shared_ptr<Inner> shared; std::unique_ptr<Inner> unique; int64_t* num; std::shared_ptr<std::string> text;
    Ptrs() : raw(nullptr), num(nullptr) {} };
struct Holder { std::vector<Inner*> list; std::map<std::string, std::shared_ptr<Inner>> map; Inner* field; Holder() : field(nullptr) {} };

// read and written as text of the value plus one
struct Custom
{
    int64_t v; static long parsed, printed;
    Custom() : v(0) {}
    void read(Reader& r)
    {
        parsed++;
        int64_t x = parseInt(r);
        if (!r.error() && x == 13) r.error("custom %s", "failure");
        if (!r.error()) v = x - 1;
    }
    void write(Writer& w) const { printed++; if (v == 13) w.error("custom %s", "failure"); else printInt(w, v + 1); }
};
long Custom::parsed = 0, Custom::printed = 0;
struct Places
{
    Custom field; std::vector<Custom> list; std::map<std::string, Custom> map; Custom* raw; std::shared_ptr<Custom> shared; std::unique_ptr<Custom> unique;
    std::vector<std::map<std::string, Custom>> deep; Custom skipped; Custom renamed;
    Places() : raw(nullptr) {}
};
struct Heir : Custom { int64_t w; Heir() : w(0) {} };

template<int M> struct Fields
{
    int64_t i; double d; std::string s; std::vector<int64_t> l; std::map<std::string, int64_t> m; int64_t* p; bool b; Inner o; Custom c;
    Fields() : i(0), d(0), p(nullptr), b(false) {}
};
struct PtrField { std::shared_ptr<int64_t> i; std::shared_ptr<std::string> s; std::shared_ptr<double> d; std::shared_ptr<bool> b; std::shared_ptr<Inner> o; std::shared_ptr<Custom> c; std::shared_ptr<std::vector<int64_t>> l; std::shared_ptr<std::shared_ptr<int64_t>> pp; };
}
typedef std::vector<int64_t> IntsT;
typedef std::vector<Value> ValuesT;
typedef std::unordered_map<std::string, Value> ObjectT;
typedef jd::Fields<0> Plain; typedef jd::Fields<1> Skip; typedef jd::Fields<2> Alias;

reflectType(jd::Inner) { reflectPlumbing(); reflectAlloc(); reflectField(n); reflectField(m); }
reflectType(jd::Old) { reflectPlumbing(); reflectField(old); reflectField(both); }
reflectType(jd::Obj)
{
    reflectParent(jd::Old);
    reflectPlumbing();
    reflectField(plain);
    reflectField(named); reflectFieldValue(named, json, json::alias("other"));
    reflectField(hidden); reflectFieldValue(hidden, json, json::skip());
    reflectField(both); reflectField(inner); reflectField(list); reflectField(map);
}
reflectType(jd::Clash1) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(a, json, json::alias("x")); reflectFieldValue(b, json, json::alias("x")); }
reflectType(jd::Clash2) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(a, json, json::alias("b")); }
reflectType(jd::Clash3) { reflectPlumbing(); reflectField(a); reflectField(b); reflectFieldValue(a, json, json::alias("b")); reflectFieldValue(b, json, json::alias("a")); }
reflectType(jd::Ptrs) { reflectPlumbing(); reflectField(raw); reflectField(shared); reflectField(unique); reflectField(num); reflectField(text); }
reflectType(jd::Holder) { reflectPlumbing(); reflectField(list); reflectField(map); reflectField(field); }
reflectType(jd::Custom) { reflectPlumbing(); reflectAlloc(); reflectField(v); reflectFn(read); reflectFn(write); reflectTypeValue(json, json::custom("read", "write")); }
reflectType(jd::Heir) { reflectParent(jd::Custom); reflectPlumbing(); reflectField(w); }
reflectType(jd::Places)
{
    reflectPlumbing();
    reflectField(field); reflectField(list); reflectField(map); reflectField(raw); reflectField(shared); reflectField(unique); reflectField(deep);
    reflectField(skipped); reflectFieldValue(skipped, json, json::skip() | json::alias("gone"));
    reflectField(renamed); reflectFieldValue(renamed, json, json::skipEmpty() | json::alias("new"));
}
reflectType(Plain) { reflectPlumbing(); reflectField(i); reflectField(d); reflectField(s); reflectField(l); reflectField(m); reflectField(p); reflectField(b); reflectField(o); reflectField(c); }
#define FIELDS(V) reflectFieldValue(i, json, V("ia")); reflectFieldValue(d, json, V("da")); reflectFieldValue(s, json, V("sa")); reflectFieldValue(l, json, V("la")); reflectFieldValue(m, json, V("ma")); \
    reflectFieldValue(p, json, V("pa")); reflectFieldValue(b, json, V("ba")); reflectFieldValue(o, json, V("oa")); reflectFieldValue(c, json, V("ca"))
#define SKIPEMPTY(n) json::skipEmpty()
reflectType(Skip) { reflectPlumbing(); reflectField(i); reflectField(d); reflectField(s); reflectField(l); reflectField(m); reflectField(p); reflectField(b); reflectField(o); reflectField(c); FIELDS(SKIPEMPTY); }
reflectType(Alias) { reflectPlumbing(); reflectField(i); reflectField(d); reflectField(s); reflectField(l); reflectField(m); reflectField(p); reflectField(b); reflectField(o); reflectField(c); FIELDS(json::alias); }
reflectType(jd::PtrField) { reflectPlumbing(); reflectField(i); reflectField(s); reflectField(d); reflectField(b); reflectField(o); reflectField(c); reflectField(l); reflectField(pp); }

namespace {
using namespace jd;
bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
std::string dec(int64_t v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", long(v)); return std::string(b, n); }
int64_t small(const char* name) { return int8_t(sym_u(8, name)); }

template<typename T> bool tryParse(const std::string& doc, T& v) // true when accepted
{
    bool ok = false;
    bool threw = raises([&] { auto e = json::parse(doc, v); ok = !e; });
    sym_check(!threw, "parsing raised");
    return ok;
}
template<typename T> std::string write(const T& v, unsigned style = Writer::Default, bool* failed = nullptr)
{
    std::ostringstream os;
    Writer w(os, Writer::Options(style));
    bool bad = false;
    bool threw = raises([&] { auto e = json::print(w, v); bad = bool(e); });
    sym_check(!threw, "printing raised");
    if (failed) *failed = bad;
    else sym_check(!bad, "printing reported an error");
    return os.str();
}
} // namespace

/******************************************************************************/
/* KEYS                                                                       */
/******************************************************************************/

extern "C" void prop_keys()
{
    sym_expect("known"); sym_expect("unknown"); sym_expect("free known"); sym_expect("twice");
    preload(); type<Obj>();
    { Obj o; raises([&] { json::parse(std::string("{\"map\":{\"a\":1},\"list\":[1],\"inner\":{}}"), o); }); }
    Obj o, e;
    struct Member { const char* key; };
    static const char* const keys[] = { "plain", "other", "named", "hidden", "old", "both", "inner", "list", "map", "Plain", "", "plai", "plainx" };
    enum { NK = sizeof keys / sizeof *keys };
    size_t n = sym_choose(B_K + 1, "members");
    std::string doc = "{";
    bool freeKey = false; unsigned last = NK;
    for (size_t i = 0; i < n; ++i) {
        unsigned k = sym_choose(freeKey ? NK : NK + 1, "key");
        std::string key;
        if (k < NK) key = keys[k];
        else { // any short key
            freeKey = true;
            key.resize(2);
            sym_bytes(&key[0], 2, "key text");
            for (char c : key) sym_assume((unsigned char)c >= 0x20 && (unsigned char)c < 0x7f && c != '"' && c != '\\');
        }
        if (i && k == last) sym_cover("twice");
        last = k;
        int64_t v = 0; std::string val;
        bool free = i == 0;
        if (k == 6) {
            bool m = sym_choose(2, "inner key");
            v = free ? small("value") : int64_t(40 + i);
            val = std::string(m ? "{\"m\":" : "{\"n\":") + dec(v) + "}";
            (m ? e.inner.m : e.inner.n) = v;
        }
        else if (k == 7) { v = 50 + i; val = "[" + dec(v) + "]"; e.list.push_back(v); }
        else if (k == 8) { v = 60 + i; val = "{\"a\":" + dec(v) + "}"; e.map["a"] = v; }
        else { v = free ? small("value") : int64_t(70 + i); val = dec(v); }
        switch (k) {
        case 0: e.plain = v; break;
        case 1: e.named = v; break;
        case 4: e.old = v; break;
        case 5: e.both = v; break;
        }
        if (k < NK) sym_cover(k < 9 && k != 2 && k != 3 ? "known" : "unknown"); else sym_cover("free known");
        doc += (i ? ",\"" : "\"") + key + "\":" + val;
    }
    doc += "}";
    sym_check(tryParse(doc, o), "well formed object was refused");
    sym_check(o.plain == e.plain, "plain field"); sym_check(o.named == e.named, "aliased field"); sym_check(o.hidden == e.hidden, "skipped field was read");
    sym_check(o.old == e.old, "inherited field"); sym_check(o.both == e.both, "shadowing field"); sym_check(o.Old::both == 2, "shadowed field was read");
    sym_check(o.inner.n == e.inner.n && o.inner.m == e.inner.m, "nested object");
    sym_check(o.list == e.list, "list"); sym_check(o.map.size() == e.map.size() && o.map == e.map, "map");
}

extern "C" void prop_keys_print()
{
    sym_expect("done");
    preload(); type<Obj>();
    Obj o;
    o.plain = small("plain"); o.named = small("named"); o.hidden = sym_i64("hidden"); o.Old::both = sym_i64("shadowed"); o.both = 3; o.old = 4;
    o.inner.n = 5; o.inner.m = 6; o.list.push_back(7); o.map["k"] = 8;
    std::string doc = write(o);
    std::string ref = std::string("{\"both\":3,\"inner\":{\"m\":6,\"n\":5},\"list\":[7],\"map\":{\"k\":8},\"old\":4") + (o.named ? ",\"other\":" + dec(o.named) : std::string()) + ",\"plain\":" + dec(o.plain) + "}";
    sym_check(same(doc, ref), "keys of a printed object");
    sym_cover("done");
}

extern "C" void prop_keys_clash()
{
    sym_expect("exchanged");
    preload();
    std::string d = "{\"x\":5,\"a\":6,\"b\":7}";
    switch (sym_choose(6, "case")) {
    case 0: { Clash1 c; sym_check(raises([&] { json::parse(d, c); }), "two fields with the same alias were accepted for parsing"); break; }
    case 1: { Clash2 c; sym_check(raises([&] { json::parse(d, c); }), "an alias which is the name of another field was accepted for parsing"); break; }
    case 2: { Clash1 c; sym_check(raises([&] { json::print(c); }), "two fields with the same alias were accepted for printing"); break; }
    case 3: { Clash2 c; sym_check(raises([&] { json::print(c); }), "an alias which is the name of another field was accepted for printing"); break; }
    case 4: {
        Clash3 c; int64_t v = sym_i64("value");
        sym_check(tryParse("{\"a\":" + dec(v) + ",\"b\":7}", c), "exchanged names were refused");
        sym_check(c.b == v && c.a == 7, "exchanged names"); sym_cover("exchanged");
        break;
    }
    case 5: { Clash3 c; c.a = 3; c.b = 4; sym_check(same(write(c), "{\"a\":4,\"b\":3}"), "exchanged names printed"); break; }
    }
}

extern "C" void prop_keys_unknown()
{
    sym_expect("first"); sym_expect("last");
    preload(); type<Obj>();
    Obj o;
    static const char* const values[] = { "null", "true", "-12.5e3", "\"a\\\"]}\"", "[]", "{}", "[1,[2,{\"plain\":3}],\"x\"]", "{\"plain\":4,\"inner\":{\"n\":5}}", "[{\"a\":[]},null]", "123456789012345678901234567890" };
    unsigned k = sym_choose(10, "value"), at = sym_choose(3, "position");
    bool nested = sym_choose(2, "nested");
    int64_t v = small("plain");
    static const char* const names[] = { "zz", "", "hidden", "named" };
    unsigned name = sym_choose(4, "key");
    std::string u = std::string("\"") + names[name] + "\":" + values[k];
    std::string doc = nested ? std::string("{\"inner\":{") + (at == 0 ? u + "," : "") + "\"n\":" + dec(v) + (at == 1 ? "," + u : "") + "}" + (at == 2 ? "," + u : "") + "}"
                             : std::string("{") + (at == 0 ? u + "," : "") + "\"plain\":" + dec(v) + (at == 1 ? "," + u : "") + ",\"old\":8" + (at == 2 ? "," + u : "") + "}";
    sym_cover(at == 0 ? "first" : "last");
    sym_check(tryParse(doc, o), "unknown key was refused");
    sym_check((nested ? o.inner.n : o.plain) == v, "field next to an unknown key");
    sym_check((nested ? o.plain == 11 : o.inner.n == 100 && o.old == 8) && o.inner.m == 200 && o.named == 12 && o.hidden == 13 && o.both == 14 && o.list.empty() && o.map.empty(), "unknown key touched a field");
}

/******************************************************************************/
/* POINTERS                                                                   */
/******************************************************************************/
namespace {
struct State { bool set; int64_t n, m; };
template<typename P> void sequence(P& p, bool raw)
{
    State e = { false, 0, 0 };
    std::shared_ptr<Inner> old;
    std::vector<Inner*> leaked; // resetting a raw pointer does not destroy its object
    for (size_t i = 0; i < B_K; ++i) {
        unsigned k = sym_choose(4, "document");
        Inner* before = p ? &*p : nullptr;
        int64_t v = i + 1 == B_K ? sym_i64("value") : int64_t(10 + i);
        std::string doc;
        switch (k) {
        case 0: doc = "null"; break;
        case 1: doc = "{\"n\":" + dec(v) + ",\"m\":" + dec(i) + "}"; break;
        case 2: doc = "{\"n\":" + dec(v) + "}"; break;
        case 3: doc = "7"; break;
        }
        bool ok = tryParse(doc, p);
        sym_check(ok == (k != 3), "acceptance of a document for a pointer");
        if (k == 0) {
            sym_check(!p, "null did not reset the pointer");
            e.set = false;
            if (raw && before) leaked.push_back(before);
            sym_cover("null");
        }
        else if (k == 3) {
            if (before) sym_check(p && &*p == before && before->n == e.n && before->m == e.m, "refused document changed the object");
            if (!before && p) { e.set = true; e.n = 100; e.m = 200; sym_check(p->n == 100 && p->m == 200, "refused document left an invalid object"); }
        }
        else {
            if (!e.set) { e.n = 100; e.m = 200; sym_cover("allocated"); }
            else { sym_check(&*p == before, "non null pointer was not updated in place"); sym_cover("updated"); }
            e.set = true;
            e.n = v; if (k == 1) e.m = i;
            sym_check(bool(p), "pointer still null"); 
            sym_check(p->n == e.n && p->m == e.m, "object behind the pointer");
        }
        sym_check(!p == !e.set, "pointer is null");
    }
    for (Inner* l : leaked) delete l;
}
}
extern "C" void prop_pointer()
{
    sym_expect("null"); sym_expect("allocated"); sym_expect("updated"); sym_expect("scalar");
    preload(); type<Ptrs>();
    long live = sym_live();
    switch (sym_choose(4, "pointer")) {
    case 0: { Inner* p = nullptr; sequence(p, true); delete p; break; }
    case 1: { std::shared_ptr<Inner> p; sequence(p, false); break; }
    case 2: { std::unique_ptr<Inner> p; sequence(p, false); break; }
    case 3: { // as fields, scalars behind pointers
        Ptrs p; sym_cover("scalar");
        int64_t v = sym_i64("value");
        bool set = sym_choose(2, "set");
        int64_t* before = nullptr;
        if (set) { p.num = before = new int64_t(1); p.text.reset(new std::string("old")); }
        const std::string* textBefore = p.text.get();
        unsigned k = sym_choose(3, "document");
        if (k == 0) {
            sym_check(tryParse("{\"num\":" + dec(v) + ",\"text\":\"new\"}", p), "scalars behind pointers were refused");
            sym_check(p.num && *p.num == v && p.text && same(*p.text, "new"), "scalars behind pointers");
            if (set) sym_check(p.num == before && p.text.get() == textBefore, "non null pointer was not updated in place");
        }
        else if (k == 1) {
            sym_check(tryParse("{\"num\":null,\"text\":null,\"raw\":null,\"shared\":null,\"unique\":null}", p), "null pointers were refused");
            sym_check(!p.num && !p.text && !p.raw && !p.shared && !p.unique, "null did not reset a pointer field");
            delete before;
        }
        else {
            sym_check(tryParse("{\"shared\":{\"n\":" + dec(v) + "},\"unique\":{\"m\":4},\"raw\":{}}", p), "objects behind pointers were refused");
            sym_check(p.shared && p.shared->n == v && p.shared->m == 200 && p.unique && p.unique->m == 4 && p.raw && p.raw->n == 100, "objects behind pointers");
            sym_check(p.num == before && p.text.get() == textBefore, "untouched pointers changed");
            delete p.raw;
        }
        if (k != 1) delete p.num;
        break;
    }
    }
    (void) live;
}

extern "C" void prop_null_other()
{
    sym_expect("done");
    preload(); type<Obj>();
    Obj o; o.plain = sym_i64("plain"); o.inner.n = sym_i64("n"); o.list.push_back(sym_i64("item")); o.map["k"] = sym_i64("value");
    Obj e = o;
    switch (sym_choose(7, "target")) {
    case 0: sym_check(tryParse("null", o), "null object"); break;
    case 1: sym_check(tryParse("null", o.inner), "null object"); break;
    case 2: sym_check(tryParse("null", o.list), "null list"); break;
    case 3: sym_check(tryParse("null", o.map), "null map"); break;
    case 4: sym_check(tryParse("{\"inner\":null,\"list\":null,\"map\":null}", o), "null fields"); break;
    case 5: { std::vector<IntsT> l(1, o.list); sym_check(tryParse("[null]", l) && l.size() == 2 && l[1].empty() && l[0] == o.list, "null element"); break; }
    case 6: { std::map<std::string, Inner> m; m["k"].n = 3; sym_check(tryParse("{\"j\":null}", m) && m.size() == 2 && m["k"].n == 3 && m["j"].n == 100, "null map value"); break; }
    }
    sym_check(o.plain == e.plain && o.named == e.named && o.hidden == e.hidden && o.old == e.old && o.both == e.both && o.inner.n == e.inner.n && o.inner.m == e.inner.m, "null changed an object");
    sym_check(o.list.size() == 1 && o.list[0] == e.list[0], "null changed a list");
    sym_check(o.map.size() == 1 && o.map["k"] == e.map["k"], "null changed a map");
    sym_cover("done");
}

extern "C" void prop_null_print()
{
    sym_expect("done");
    preload(); type<Holder>();
    Inner x; x.n = small("n"); x.m = 2;
    Holder h;
    bool a = sym_choose(2, "element"), b = sym_choose(2, "value"), c = sym_choose(2, "field");
    h.list.push_back(nullptr); h.list.push_back(a ? &x : nullptr);
    h.map["k"] = b ? std::make_shared<Inner>(x) : nullptr;
    h.field = c ? &x : nullptr;
    std::string t = "{\"m\":2,\"n\":" + dec(x.n) + "}", N = "null";
    std::string ref = "{\"field\":" + (c ? t : N) + ",\"list\":[null," + (a ? t : N) + "],\"map\":{\"k\":" + (b ? t : N) + "}}";
    sym_check(same(write(h), ref), "printed pointers");
    Inner* p = nullptr; std::shared_ptr<Inner> s; std::unique_ptr<int64_t> u;
    sym_check(same(write(p), N) && same(write(s), N) && same(write(u), N), "null pointer on its own");
    // and back
    Holder g;
    sym_check(tryParse(ref, g), "printed pointers were refused");
    sym_check(g.list.size() == 2 && !g.list[0] && !g.list[1] == !a && g.map.size() == 1 && !g.map["k"] == !b && !g.field == !c, "pointers read back");
    if (a) sym_check(g.list[1]->n == x.n && g.list[1] != &x, "element behind a pointer");
    if (b) sym_check(g.map["k"]->n == x.n, "map value behind a pointer");
    if (c) sym_check(g.field->n == x.n && g.field != &x, "field behind a pointer");
    if (a) delete g.list[1];
    if (c) delete g.field;
    sym_cover("done");
}

/******************************************************************************/
/* UNTYPED                                                                    */
/******************************************************************************/
namespace {
// builds a document by choosing tokens which keep it well formed and the value expected for it
struct Tree
{
    enum Kind { Null, True, Int, Float, Text, List, Map } kind;
    int64_t i; std::vector<Tree> items; std::vector<std::string> keys;
    Tree() : kind(Null), i(0) {}
};
struct Build
{
    size_t left; std::string doc; bool free;
    explicit Build(size_t n) : left(n), free(true) {}
    Tree any()
    {
        Tree t;
        unsigned k = left >= 2 ? sym_choose(7, "kind") : sym_choose(5, "kind");
        t.kind = Tree::Kind(k);
        left -= k >= Tree::List ? 2 : 1;
        switch (t.kind) {
        case Tree::Null: doc += "null"; break;
        case Tree::True: doc += "true"; break;
        case Tree::Int: if (free) { t.i = small("int"); free = false; } else t.i = 42; doc += dec(t.i); break;
        case Tree::Float: doc += "-0.5"; break;
        case Tree::Text: doc += "\"te\\nxt\""; break;
        case Tree::List: {
            doc += "[";
            for (;;) {
                size_t cost = t.items.empty() ? 1 : 2;
                if (left < cost || !sym_choose(2, "more")) break;
                if (!t.items.empty()) { doc += ","; left--; }
                t.items.push_back(any());
            }
            doc += "]"; break;
        }
        case Tree::Map: {
            doc += "{";
            for (;;) {
                size_t cost = t.items.empty() ? 3 : 4;
                if (left < cost || !sym_choose(2, "more")) break;
                if (!t.items.empty()) { doc += ","; left--; }
                const char* key = sym_choose(2, "key") ? "a" : "b";
                doc += std::string("\"") + key + "\":"; left -= 2;
                t.keys.push_back(key);
                t.items.push_back(any());
            }
            doc += "}"; break;
        }
        }
        return t;
    }
};
void checkTree(const Value& v, const Tree& t)
{
    if (t.kind == Tree::Null) { sym_check(v.isVoid(), "null isn't void"); return; }
    sym_check(!v.isVoid(), "value is void");
    sym_check(v.isStored(), "value isn't stored");
    switch (t.kind) {
    case Tree::True: sym_check(v.type() == type<bool>() && v.get<bool>(), "boolean"); break;
    case Tree::Int: sym_check(v.type() == type<int64_t>() && v.get<int64_t>() == t.i, "integer"); sym_cover("int"); break;
    case Tree::Float: sym_check(v.type() == type<double>() && v.get<double>() == -0.5, "floating point"); break;
    case Tree::Text: sym_check(v.type() == type<std::string>() && same(v.get<std::string>(), "te\nxt"), "text"); break;
    case Tree::List: {
        sym_check(v.type() == type<ValuesT>(), "list type");
        auto& l = v.get<ValuesT>();
        sym_check(l.size() == t.items.size(), "list size");
        for (size_t i = 0; i < l.size(); ++i) checkTree(l[i], t.items[i]);
        if (l.size() > 1) sym_cover("list");
        break;
    }
    case Tree::Map: {
        sym_check(v.type() == type<ObjectT>(), "map type");
        auto& m = v.get<ObjectT>();
        size_t distinct = 0;
        for (size_t i = 0; i < t.keys.size(); ++i) {
            bool first = true, lastOne = true;
            for (size_t j = 0; j < t.keys.size(); ++j) if (j != i && t.keys[j] == t.keys[i]) (j < i ? first : lastOne) = false;
            auto it = m.find(t.keys[i]);
            sym_check(it != m.end(), "key is missing");
            if (first) distinct++;
            if (first && lastOne) checkTree(it->second, t.items[i]); // either may be kept when a key is repeated
        }
        sym_check(m.size() == distinct, "map size");
        if (distinct) sym_cover("map");
        break;
    }
    default: break;
    }
}
}
extern "C" void prop_tree()
{
    sym_expect("int"); sym_expect("list"); sym_expect("map"); sym_expect("previous");
    preload(); type<ValuesT>(); type<ObjectT>();
    Build b(B_N);
    Tree t = b.any();
    Value v;
    json::Error e;
    sym_check(!raises([&] { e = json::parse(b.doc, v); }), "parsing raised");
    sym_check(!e, "well formed document was refused");
    checkTree(v, t);
    // what was read stays when the document is gone and other values share it
    Value c = v;
    v = Value();
    checkTree(c, t);
    sym_cover("previous");
}
extern "C" void prop_scalar()
{
    sym_expect("int"); sym_expect("text"); sym_expect("float");
    preload(); type<ValuesT>(); type<ObjectT>();
    Value v;
    bool wrapped = sym_choose(2, "in a list");
    auto get = [&] (const std::string& doc) -> Value {
        json::Error e;
        sym_check(!raises([&] { e = json::parse(wrapped ? "[" + doc + "]" : doc, v); }), "parsing raised");
        sym_check(!e, "well formed document was refused");
        if (!wrapped) return v;
        sym_check(v.type() == type<ValuesT>() && v.get<ValuesT>().size() == 1, "list of one");
        return v.get<ValuesT>()[0];
    };
    switch (sym_choose(3, "kind")) {
    case 0: {
        int64_t i = sym_i64("value");
        Value r = get(dec(i));
        sym_check(r.type() == type<int64_t>() && r.get<int64_t>() == i, "integer"); sym_cover("int");
        break;
    }
    case 1: {
        size_t n = sym_choose(4, "length");
        std::string s(n, 'x');
        if (n) sym_bytes(&s[0], n, "text");
        for (char c : s) sym_assume((unsigned char)c >= 0x20 && (unsigned char)c < 0x7f && c != '"' && c != '\\');
        Value r = get("\"" + s + "\"");
        sym_check(r.type() == type<std::string>() && same(r.get<std::string>(), s), "text"); sym_cover("text");
        break;
    }
    case 2: {
        char d[3]; sym_bytes(d, 3, "digits");
        for (char& c : d) sym_assume((unsigned char)c >= '0' && (unsigned char)c <= '9');
        std::string s; s += d[0]; s += d[1]; s += '.'; s += d[2];
        Value r = get(s);
        double x = (unsigned char)d[0] - '0';
        x = double(((unsigned char)d[0] - '0') * 100 + ((unsigned char)d[1] - '0') * 10 + ((unsigned char)d[2] - '0')) / 10.0;
        sym_check(r.type() == type<double>() && r.get<double>() == x, "floating point"); sym_cover("float");
        break;
    }
    }
}

/******************************************************************************/
/* EMPTY                                                                      */
/******************************************************************************/
namespace {
enum { NF = 9 };
// order of the keys, which is the same for the names and the aliases
const char order[] = { 'b', 'c', 'd', 'i', 'l', 'm', 'o', 'p', 's' };

template<typename F> void emptyFields(int kind)
{
    F f;
    unsigned st[] = { Writer::Default, Writer::Compact | Writer::Default };
    bool compact = sym_choose(2, "style");
    bool filled[128] = {};
    int64_t pointee = 0;
    unsigned last = 0;
    for (size_t k = 0; k < B_F; ++k) {
        unsigned which = last + sym_choose(NF + 1 - last, "filled");
        if (which == NF) break;
        last = which;
        char c = order[which];
        filled[int(c)] = true;
    }
    std::string val[128];
    bool empty[128] = {};
    f.b = filled[int('b')]; val[int('b')] = f.b ? "true" : "false";
    if (filled[int('c')]) f.c.v = 4;
    val[int('c')] = dec(f.c.v + 1);
    if (filled[int('d')]) { int8_t x = int8_t(small("d")); f.d = x; char b[16]; snprintf(b, sizeof b, "%d", int(x)); val[int('d')] = b; empty[int('d')] = x == 0; if (x == 0) sym_cover("zero"); }
    else { val[int('d')] = "0"; empty[int('d')] = true; }
    if (filled[int('i')]) f.i = small("i");
    val[int('i')] = dec(f.i); empty[int('i')] = f.i == 0;
    if (filled[int('l')]) { f.l.push_back(0); val[int('l')] = "[0]"; } else { val[int('l')] = "[]"; empty[int('l')] = true; }
    if (filled[int('m')]) { f.m[""] = 0; val[int('m')] = "{\"\":0}"; } else { val[int('m')] = "{}"; empty[int('m')] = true; }
    if (filled[int('o')]) { f.o.n = 0; f.o.m = 0; }
    val[int('o')] = compact && f.o.n == 0 ? "{}" : "{\"m\":" + dec(f.o.m) + ",\"n\":" + dec(f.o.n) + "}";
    if (filled[int('p')]) { pointee = small("p"); f.p = &pointee; val[int('p')] = dec(pointee); empty[int('p')] = pointee == 0; } else { val[int('p')] = "null"; empty[int('p')] = true; }
    if (filled[int('s')]) { f.s = "x"; sym_bytes(&f.s[0], 1, "s"); sym_assume((unsigned char)f.s[0] < 0x80); if (!f.s[0]) sym_cover("nul"); }
    val[int('s')] = write(f.s, st[0]); empty[int('s')] = f.s.empty();

    std::string ref = "{";
    bool first = true;
    for (char c : order) {
        if (empty[int(c)] && (compact || kind != 0)) { sym_cover("omitted"); continue; }
        if (empty[int(c)]) sym_cover("kept");
        if (!first) ref += ",";
        first = false;
        ref += std::string("\"") + c + (kind == 2 ? "a" : "") + "\":" + val[int(c)];
    }
    ref += "}";
    std::string doc = write(f, st[compact]);
    sym_check(same(doc, ref), "fields of the printed object");
}
}
extern "C" void prop_empty()
{
    sym_expect("omitted"); sym_expect("kept"); sym_expect("zero"); sym_expect("nul");
    preload(); type<Plain>(); type<Skip>(); type<Alias>();
    switch (sym_choose(3, "declaration")) {
    case 0: emptyFields<Plain>(0); break;
    case 1: emptyFields<Skip>(1); break;
    case 2: emptyFields<Alias>(2); break;
    }
}
extern "C" void prop_empty_pointer()
{
    sym_expect("null"); sym_expect("to empty"); sym_expect("to full");
    preload(); type<PtrField>();
    PtrField f;
    bool compact = sym_choose(2, "style");
    unsigned which = sym_choose(8, "field"), how = sym_choose(2, "filled");
    struct { const char* name; std::string text; bool empty; } e[] = { { "b", "null", true }, { "c", "null", true }, { "d", "null", true }, { "i", "null", true }, { "l", "null", true }, { "o", "null", true }, { "pp", "null", true }, { "s", "null", true } };
    switch (which) {
    case 0: f.b.reset(new bool(how)); e[0].text = how ? "true" : "false"; e[0].empty = false; break;
    case 1: f.c.reset(new Custom); f.c->v = how; e[1].text = how ? "2" : "1"; e[1].empty = false; break;
    case 2: f.d.reset(new double(how ? 0.5 : 0.0)); e[2].text = how ? "0.5" : "0"; e[2].empty = !how; break;
    case 3: { int64_t v = how ? small("i") : 0; f.i.reset(new int64_t(v)); e[3].text = dec(v); e[3].empty = v == 0; break; }
    case 4: f.l.reset(new IntsT(how)); e[4].text = how ? "[0]" : "[]"; e[4].empty = !how; break;
    case 5: f.o.reset(new Inner); if (!how) f.o->n = f.o->m = 0; e[5].text = how ? "{\"m\":200,\"n\":100}" : compact ? "{}" : "{\"m\":0,\"n\":0}"; e[5].empty = false; break;
    case 6: f.pp.reset(new std::shared_ptr<int64_t>); if (how) f.pp->reset(new int64_t(small("pp"))); e[6].text = how ? dec(**f.pp) : "null"; e[6].empty = !how || **f.pp == 0; break;
    case 7: f.s.reset(new std::string(how, 'x')); e[7].text = how ? "\"x\"" : "\"\""; e[7].empty = !how; break;
    }
    sym_cover("null"); sym_cover(e[which].empty ? "to empty" : "to full");
    std::string ref = "{";
    bool first = true;
    for (auto& x : e) {
        if (compact && x.empty) continue;
        if (!first) ref += ",";
        first = false;
        ref += std::string("\"") + x.name + "\":" + x.text;
    }
    ref += "}";
    sym_check(same(write(f, compact ? Writer::Compact | Writer::Default : Writer::Default), ref), "pointer fields of the printed object");
}

/******************************************************************************/
/* CUSTOM                                                                     */
/******************************************************************************/
namespace {
enum { NPLACE = 9 };
// documents with the custom value x in one place
std::string place(unsigned k, const std::string& x)
{
    switch (k) {
    case 0: return x;
    case 1: return "{\"field\":" + x + "}";
    case 2: return "{\"list\":[1," + x + "]}";
    case 3: return "{\"map\":{\"k\":" + x + "}}";
    case 4: return "{\"raw\":" + x + "}";
    case 5: return "{\"shared\":" + x + "}";
    case 6: return "{\"unique\":" + x + "}";
    case 7: return "{\"deep\":[{},{\"k\":" + x + "}]}";
    default: return "{\"new\":" + x + "}";
    }
}
Custom* at(unsigned k, Places& p)
{
    switch (k) {
    case 1: return &p.field;
    case 2: return p.list.size() == 2 ? &p.list[1] : nullptr;
    case 3: return p.map.size() == 1 && p.map.count("k") ? &p.map["k"] : nullptr;
    case 4: return p.raw;
    case 5: return p.shared.get();
    case 6: return p.unique.get();
    case 7: return p.deep.size() == 2 && p.deep[0].empty() && p.deep[1].count("k") ? &p.deep[1]["k"] : nullptr;
    default: return &p.renamed;
    }
}
std::string printed(unsigned k, Places& p)
{
    std::string N = "null", s = "{\"deep\":[";
    for (size_t i = 0; i < p.deep.size(); ++i) { s += i ? ",{" : "{"; for (auto& e : p.deep[i]) s += "\"" + e.first + "\":" + dec(e.second.v + 1); s += "}"; }
    s += "],\"field\":" + dec(p.field.v + 1) + ",\"list\":[";
    for (size_t i = 0; i < p.list.size(); ++i) s += (i ? "," : "") + dec(p.list[i].v + 1);
    s += "],\"map\":{";
    for (auto& e : p.map) s += "\"" + e.first + "\":" + dec(e.second.v + 1);
    s += "},\"new\":" + dec(p.renamed.v + 1) + ",\"raw\":" + (p.raw ? dec(p.raw->v + 1) : N) + ",\"shared\":" + (p.shared ? dec(p.shared->v + 1) : N) + ",\"unique\":" + (p.unique ? dec(p.unique->v + 1) : N) + "}";
    (void) k;
    return s;
}
}
extern "C" void prop_custom()
{
    sym_expect("own"); sym_expect("placed"); sym_expect("heir");
    preload(); type<Places>();
    unsigned k = sym_choose(NPLACE + 1, "place");
    int64_t v = sym_i64("value");
    sym_assume(v != 13 && v != INT64_MIN && v != 14);
    std::string doc = place(k, dec(v));
    Custom::parsed = Custom::printed = 0;
    if (k == 0) {
        Custom c;
        bool ok0 = tryParse(doc, c); sym_check(ok0 && c.v == v - 1 && Custom::parsed == 1, "custom parser on its own");
        sym_check(same(write(c), doc) && Custom::printed == 1, "custom printer on its own");
        sym_cover("own");
    }
    else if (k == NPLACE) { // a derived class isn't its base class
        Heir h;
        sym_check(tryParse("{\"w\":" + dec(v) + "}", h) && h.w == v && Custom::parsed == 0, "custom parser used for a derived class");
        sym_check(same(write(h), "{\"v\":0,\"w\":" + dec(v) + "}") && Custom::printed == 0, "custom printer used for a derived class");
        sym_cover("heir");
    }
    else {
        Places p; p.skipped.v = 5;
        sym_check(tryParse(doc, p), "custom value was refused");
        Custom* c = at(k, p);
        sym_check(c && c->v == v - 1, "value read by the custom parser");
        sym_check(Custom::parsed == (k == 2 ? 2 : 1), "custom parser called once per value");
        if (k == 2) sym_check(p.list[0].v == 0, "other element read by the custom parser");
        sym_check(same(write(p), printed(k, p)), "values written by the custom printer");
        sym_check(p.skipped.v == 5, "skipped custom field");
        delete p.raw;
        sym_cover("placed");
    }
}
extern "C" void prop_custom_error()
{
    sym_expect("parse"); sym_expect("print"); sym_expect("kept");
    preload(); type<Places>();
    unsigned k = sym_choose(NPLACE, "place");
    bool pre = sym_choose(2, "pointers set");
    if (sym_choose(2, "print")) {
        bool failed = false;
        if (k == 0) { Custom c; c.v = 13; write(c, Writer::Default, &failed); }
        else {
            Places p; p.list.resize(2); p.map["k"]; p.raw = new Custom; p.shared.reset(new Custom); p.unique.reset(new Custom); p.deep.resize(2); p.deep[1]["k"];
            at(k, p)->v = 13;
            write(p, Writer::Default, &failed);
            delete p.raw;
        }
        sym_check(failed, "error of a custom printer was lost"); sym_cover("print");
        return;
    }
    std::ostringstream os;
    std::istringstream is(place(k, sym_choose(2, "kind") ? "13" : "true"));
    Reader r(is);
    if (k == 0) { Custom c; c.v = 7; sym_check(!raises([&] { json::parse(r, c); }), "parsing raised"); sym_check(c.v == 7, "failed custom parser changed the value"); }
    else {
        Places p;
        if (pre) { p.raw = new Custom; p.shared.reset(new Custom); p.unique.reset(new Custom); p.map["k"].v = 9; }
        sym_check(!raises([&] { json::parse(r, p); }), "parsing raised");
        sym_check(p.list.size() <= 2 && p.deep.size() <= 2, "containers after a failure");
        if (pre && k == 3) { sym_check(p.map["k"].v == 9, "failed value replaced a map entry"); sym_cover("kept"); }
        delete p.raw;
    }
    sym_check(bool(r.error()) && !r, "error of a custom parser was lost"); sym_cover("parse");
}
extern "C" void prop_traits()
{
    sym_expect("done");
    preload();
    const char* texts[3][2] = { { "a", "d" }, { "b", "e" }, { "c", "f" } };
    auto one = [&] (unsigned k, unsigned at) -> json::Traits {
        const char** x = texts[at];
        switch (k) {
        case 0: return json::skip();
        case 1: return json::skipEmpty();
        case 2: return json::alias(x[0]);
        case 3: return json::custom(x[0], x[1]);
        case 4: return json::custom(x[0], "");
        case 5: return json::custom("", x[1]);
        default: return json::Traits();
        }
    };
    unsigned d[3];
    d[0] = sym_choose(7, "first"); d[1] = sym_choose(7, "second"); d[2] = sym_choose(7, "third");
    bool right = sym_choose(2, "grouping");
    json::Traits t = right ? one(d[0], 0) | (one(d[1], 1) | one(d[2], 2)) : (one(d[0], 0) | one(d[1], 1)) | one(d[2], 2);
    // a text given once is kept; of several one is kept
    auto text = [&] (const std::string& got, unsigned k1, unsigned k2, unsigned part, const char* what) {
        bool any = false, found = false;
        for (unsigned i = 0; i < 3; ++i) if (d[i] == k1 || d[i] == k2) { any = true; if (same(got, texts[i][part])) found = true; }
        sym_check(any ? found : got.empty(), what);
    };
    auto has = [&] (unsigned k) { return d[0] == k || d[1] == k || d[2] == k; };
    sym_check(t.skip == has(0), "skip declaration");
    sym_check(t.skipEmpty == (has(1) || has(2)), "skip when empty declaration");
    text(t.alias, 2, 2, 0, "alias declaration");
    text(t.parser, 3, 4, 0, "custom parser declaration");
    text(t.printer, 3, 5, 1, "custom printer declaration");
    sym_cover("done");
}
