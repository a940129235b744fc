// Reflected objects printed and parsed back.
// @check J09 libs=core,prims,std,json entries=prop_scalars,prop_containers,prop_pointers,prop_nested,prop_recursive quick=-DB_L=2 thorough=-DB_L=3
// @bounds J09 an object with inherited, scalar, list, map, nested object and raw, shared and unique pointer fields: per entry one group of fields takes every value (every 64 bit integer, 16 bit integral doubles, texts of up to B_L ASCII characters, lists and maps of up to B_L items, pointers null or not, lists of lists, lists of maps, lists of pointers, maps of objects, chains of up to B_L objects), in each of the styles None, default, pretty, compact, pretty compact and unescaped
// @check J14 libs=core,prims,std,json entries=prop_layout,prop_layout_generic,prop_layout_deep,prop_layout_keys quick=-DB_L=2,-DB_D=1030 thorough=-DB_L=3,-DB_D=2100
// @bounds J14 the object of J09 with every subset of its list, map, object and pointer fields empty and lists and maps of up to B_L items, every style; objects and lists of up to 3 entries printed through the callbacks with every subset skipped; nesting of lists and objects up to B_D levels; an object of three fields under every choice of different keys of one letter
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <sstream>
#include <cstring>
#include <cstdio>
#ifndef B_L
#define B_L 2
#endif
#ifndef B_D
#define B_D 8
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Leaf { int64_t n; bool b; Leaf() : n(0), b(false) {} };
struct Base { int64_t id; std::string name; Base() : id(0) {} };
struct Node : Base
{
    bool flag; double real; Leaf leaf;
    std::vector<int64_t> list; std::map<std::string, int64_t> map;
    std::vector<Leaf> leaves; std::map<std::string, Leaf> named;
    std::vector<std::vector<std::string>> lol; std::vector<std::map<std::string, bool>> lom;
    std::vector<std::shared_ptr<int64_t>> lop;
    Leaf* raw; int64_t* num; std::shared_ptr<Leaf> shared; std::unique_ptr<Leaf> unique; std::shared_ptr<std::string> ptext;
    Node* next;
    Node() : flag(false), real(0), raw(nullptr), num(nullptr), next(nullptr) {}
    ~Node() { delete raw; delete num; delete next; }
};
}
reflectType(jd::Leaf) { reflectPlumbing(); reflectAlloc(); reflectField(n); reflectField(b); }
reflectType(jd::Base) { reflectPlumbing(); reflectField(id); reflectField(name); }
reflectType(jd::Node)
{
    reflectParent(jd::Base);
    reflectPlumbing(); reflectAlloc();
    reflectField(flag); reflectField(real); reflectField(leaf);
    reflectField(list); reflectField(map); reflectField(leaves); reflectField(named);
    reflectField(lol); reflectField(lom); reflectField(lop);
    reflectField(raw); reflectField(num); reflectField(shared); reflectField(unique); reflectField(ptext);
    reflectField(next);
}

namespace {
using jd::Node; using jd::Leaf;

bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
bool same(const Leaf& a, const Leaf& b) { return a.n == b.n && a.b == b.b; }

std::string text(const char* name, size_t max)
{
    size_t n = sym_choose(max + 1, name);
    std::string s(n, 'x');
    if (n) sym_bytes(&s[0], n, name);
    for (size_t i = 0; i < n; ++i) sym_assume((unsigned char)s[i] < 0x80);
    return s;
}
std::string dec(int64_t v) { char b[32]; int n = snprintf(b, sizeof b, "%ld", long(v)); return std::string(b, n); }

const unsigned styles[] = { Writer::Default, Writer::None, Writer::Pretty | Writer::Default, Writer::Compact | Writer::Default, Writer::Pretty | Writer::Compact, Writer::Compact };
enum { NSTYLES = 6 };

std::string write(const Node& o, unsigned style)
{
    std::ostringstream os;
    Writer w(os, Writer::Options(style));
    bool threw = raises([&] { auto e = json::print(w, o); sym_check(!e, "object could not be printed"); });
    sym_check(!threw, "printing raised");
    sym_check(bool(w), "writer in error without an error");
    return os.str();
}
void back(const std::string& doc, Node& o)
{
    bool threw = raises([&] { auto e = json::parse(doc, o); sym_check(!e, "printed object could not be parsed"); });
    sym_check(!threw, "parsing raised");
}
void checkLeaf(const Leaf* a, const Leaf* b)
{
    sym_check(!a == !b, "pointer null on one side only");
    if (a) sym_check(same(*a, *b), "object behind a pointer");
}
// compact: pointers to something empty are left out
void compare(const Node& a, const Node& b, bool compact)
{
    sym_check(a.id == b.id, "inherited integer"); sym_check(same(a.name, b.name), "inherited text");
    sym_check(a.flag == b.flag, "boolean"); sym_check(a.real == b.real, "floating point"); sym_check(same(a.leaf, b.leaf), "nested object");
    sym_check(a.list.size() == b.list.size(), "list size");
    for (size_t i = 0; i < a.list.size(); ++i) sym_check(a.list[i] == b.list[i], "list element");
    sym_check(a.map.size() == b.map.size(), "map size");
    for (auto i = a.map.begin(), j = b.map.begin(); i != a.map.end(); ++i, ++j) sym_check(same(i->first, j->first) && i->second == j->second, "map entry");
    sym_check(a.leaves.size() == b.leaves.size(), "list of objects size");
    for (size_t i = 0; i < a.leaves.size(); ++i) sym_check(same(a.leaves[i], b.leaves[i]), "object in a list");
    sym_check(a.named.size() == b.named.size(), "map of objects size");
    for (auto i = a.named.begin(), j = b.named.begin(); i != a.named.end(); ++i, ++j) sym_check(same(i->first, j->first) && same(i->second, j->second), "object in a map");
    sym_check(a.lol.size() == b.lol.size(), "list of lists size");
    for (size_t i = 0; i < a.lol.size(); ++i) {
        sym_check(a.lol[i].size() == b.lol[i].size(), "inner list size");
        for (size_t j = 0; j < a.lol[i].size(); ++j) sym_check(same(a.lol[i][j], b.lol[i][j]), "inner list element");
    }
    sym_check(a.lom.size() == b.lom.size(), "list of maps size");
    for (size_t i = 0; i < a.lom.size(); ++i) {
        sym_check(a.lom[i].size() == b.lom[i].size(), "inner map size");
        for (auto k = a.lom[i].begin(), l = b.lom[i].begin(); k != a.lom[i].end(); ++k, ++l) sym_check(same(k->first, l->first) && k->second == l->second, "inner map entry");
    }
    sym_check(a.lop.size() == b.lop.size(), "list of pointers size");
    for (size_t i = 0; i < a.lop.size(); ++i) {
        sym_check(!a.lop[i] == !b.lop[i], "pointer in a list null on one side only");
        if (a.lop[i]) sym_check(*a.lop[i] == *b.lop[i], "integer behind a pointer in a list");
    }
    checkLeaf(a.raw, b.raw); checkLeaf(a.shared.get(), b.shared.get()); checkLeaf(a.unique.get(), b.unique.get());
    bool num = a.num && !(compact && *a.num == 0);
    sym_check(num == !!b.num, "pointer to an integer null on one side only");
    if (num) sym_check(*a.num == *b.num, "integer behind a pointer");
    bool pl = a.ptext && !(compact && a.ptext->empty());
    sym_check(pl == !!b.ptext, "pointer to a text null on one side only");
    if (pl) {
        sym_check(same(*a.ptext, *b.ptext), "text behind a pointer");
    }
    sym_check(!a.next == !b.next, "recursive pointer null on one side only");
    if (a.next) compare(*a.next, *b.next, compact);
}
unsigned style() { unsigned i = sym_choose(NSTYLES, "style"); return styles[i]; }
void roundtrip(const Node& a, unsigned st)
{
    std::string doc = write(a, st);
    Node b;
    back(doc, b);
    compare(a, b, st & Writer::Compact);
}
void preloadJson()
{
    preload();
    type<Node>(); type<std::shared_ptr<Leaf>>(); type<Leaf*>(); type<int64_t*>(); type<Node*>(); type<std::shared_ptr<std::string>>();
    Node a, b; // the parsers and printers of every type
    raises([&] { auto r = json::print(a); json::parse(r.first, b); });
}
} // namespace

extern "C" void prop_scalars()
{
    sym_expect("inherited"); sym_expect("own");
    preloadJson();
    Node a;
    unsigned st = style();
    switch (sym_choose(5, "field")) {
    case 0: a.id = sym_i64("id"); sym_cover("inherited"); break;
    case 1: a.name = text("name", B_L); break;
    case 2: a.flag = sym_choose(2, "flag"); a.real = double(int16_t(sym_u(16, "real"))); break;
    case 3: a.leaf.n = sym_i64("leaf"); a.leaf.b = sym_choose(2, "leaf flag"); sym_cover("own"); break;
    case 4: a.id = int8_t(sym_u(8, "id")); a.leaf.n = int8_t(sym_u(8, "leaf")); a.flag = sym_choose(2, "flag"); break;
    }
    roundtrip(a, st);
}

extern "C" void prop_containers()
{
    sym_expect("list"); sym_expect("map"); sym_expect("objects"); sym_expect("nested");
    preloadJson();
    Node a;
    unsigned st = style();
    unsigned which = sym_choose(7, "field");
    size_t n = sym_choose(B_L + 1, "size");
    for (size_t i = 0; i < n; ++i) {
        std::string key(1, char('m' - i));
        switch (which) {
        case 0: if (n == 1) a.list.push_back(sym_i64("item")); else a.list.push_back(int8_t(sym_u(8, "item"))); sym_cover("list"); break;
        case 1: {
            std::string k = text("key", 1);
            a.map[k] = i ? 7 : int8_t(sym_u(8, "item")); sym_cover("map"); break;
        }
        case 2: { Leaf l; l.n = int8_t(sym_u(8, "leaf")); l.b = sym_choose(2, "leaf flag"); a.leaves.push_back(l); sym_cover("objects"); break; }
        case 3: { Leaf l; l.n = int8_t(sym_u(8, "leaf")); l.b = sym_choose(2, "leaf flag"); a.named[key] = l; break; }
        case 4: {
            std::vector<std::string> v;
            size_t m = sym_choose(B_L + 1, "inner size");
            for (size_t j = 0; j < m; ++j) v.push_back(j ? std::string("z") : text("inner", 1));
            a.lol.push_back(v); sym_cover("nested"); break;
        }
        case 5: {
            std::map<std::string, bool> m;
            size_t k = sym_choose(B_L + 1, "inner size");
            for (size_t j = 0; j < k; ++j) m[std::string(1, char('a' + j))] = sym_choose(2, "inner");
            a.lom.push_back(m); break;
        }
        case 6: {
            std::shared_ptr<int64_t> p;
            if (sym_choose(2, "pointer")) { p.reset(new int64_t(0)); *p = n > 1 ? int8_t(sym_u(8, "pointee")) : sym_i64("pointee"); }
            a.lop.push_back(p); break;
        }
        }
    }
    roundtrip(a, st);
}

extern "C" void prop_pointers()
{
    sym_expect("all null"); sym_expect("none null");
    preloadJson();
    Node a;
    unsigned st = style();
    unsigned mask = sym_choose(32, "null");
    if (mask & 1) { a.raw = new Leaf; a.raw->n = (mask & 2) ? 7 : int8_t(sym_u(8, "raw")); }
    if (mask & 2) { a.num = new int64_t; *a.num = int8_t(sym_u(8, "num")); }
    if (mask & 4) { a.shared.reset(new Leaf); a.shared->n = 3; a.shared->b = (mask & 8) ? true : sym_choose(2, "shared"); }
    if (mask & 8) { a.unique.reset(new Leaf); a.unique->n = 4; a.unique->b = (mask & 16) ? true : sym_choose(2, "unique"); }
    if (mask & 16) { size_t n = sym_choose(2, "size"); a.ptext.reset(new std::string(n, 't')); }
    if (!mask) sym_cover("all null");
    if (mask == 31) sym_cover("none null");
    roundtrip(a, st);
}

extern "C" void prop_nested()
{
    sym_expect("done");
    preloadJson();
    Node a; // everything at once
    unsigned st = style();
    a.id = int16_t(sym_u(16, "id")); a.name = "n\"\\/\n\xc3\xa9"; a.flag = true; a.real = 2.5; a.leaf.n = 3;
    a.list.push_back(4); a.map["k"] = 5; a.map["j"] = -6; a.leaves.resize(2); a.leaves[1].n = 7; a.named["l"].b = true;
    a.lol.resize(2); a.lol[0].push_back("s"); a.lom.resize(1); a.lom[0]["t"] = true; a.lop.resize(2); a.lop[1].reset(new int64_t(8));
    a.raw = new Leaf; a.num = new int64_t(9); a.shared.reset(new Leaf); a.shared->n = 10; a.unique.reset(new Leaf); a.unique->b = true; a.ptext.reset(new std::string("u"));
    roundtrip(a, st);
    sym_cover("done");
}

extern "C" void prop_recursive()
{
    sym_expect("longest");
    preloadJson();
    Node a;
    unsigned st = style();
    size_t n = sym_choose(B_L + 1, "length");
    Node* last = &a;
    for (size_t i = 0; i < n; ++i) {
        last->next = new Node; last = last->next;
        if (i + 1 < n) last->id = int8_t(i + 1);
        else last->id = int8_t(sym_u(8, "id"));
        last->list.resize(i, int64_t(i));
    }
    if (n == B_L) sym_cover("longest");
    roundtrip(a, st);
}

/******************************************************************************/
/* LAYOUT                                                                     */
/******************************************************************************/
namespace {
struct Field { const char* name; std::string value; bool empty; };

std::string leafText(const Leaf& l, bool compact)
{
    std::string s = std::string("{\"b\":") + (l.b ? "true" : "false");
    if (!compact || l.n != 0) s += ",\"n\":" + dec(l.n);
    return s + "}";
}
std::string object(std::vector<Field>& f, bool compact) // fields in order
{
    std::string s = "{";
    bool first = true;
    for (auto& x : f) {
        if (compact && x.empty) continue;
        if (!first) s += ",";
        first = false;
        s += "\""; s += x.name; s += "\":"; s += x.value;
    }
    return s + "}";
}
// the document without any white space
std::string reference(const Node& o, bool compact)
{
    std::vector<Field> f;
    auto add = [&] (const char* n, const std::string& v, bool e) { Field x = { n, v, e }; f.push_back(x); };
    auto leafPtr = [&] (const Leaf* l) { return l ? leafText(*l, compact) : std::string("null"); };
    auto ints = [&] (const std::vector<int64_t>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + dec(v[i]); return s + "]"; };
    std::string s;
    add("flag", o.flag ? "true" : "false", false);
    add("id", dec(o.id), o.id == 0);
    add("leaf", leafText(o.leaf, compact), false);
    s = "["; for (size_t i = 0; i < o.leaves.size(); ++i) s += (i ? "," : "") + leafText(o.leaves[i], compact); s += "]";
    add("leaves", s, o.leaves.empty());
    add("list", ints(o.list), o.list.empty());
    s = "["; for (size_t i = 0; i < o.lol.size(); ++i) { s += i ? ",[" : "["; for (size_t j = 0; j < o.lol[i].size(); ++j) s += (j ? ",\"" : "\"") + o.lol[i][j] + "\""; s += "]"; } s += "]";
    add("lol", s, o.lol.empty());
    s = "["; for (size_t i = 0; i < o.lom.size(); ++i) { s += i ? ",{" : "{"; bool c = false; for (auto& e : o.lom[i]) { s += (c ? ",\"" : "\"") + e.first + "\":" + (e.second ? "true" : "false"); c = true; } s += "}"; } s += "]";
    add("lom", s, o.lom.empty());
    s = "["; for (size_t i = 0; i < o.lop.size(); ++i) s += (i ? "," : "") + (o.lop[i] ? dec(*o.lop[i]) : std::string("null")); s += "]";
    add("lop", s, o.lop.empty());
    s = "{"; { bool c = false; for (auto& e : o.map) { s += (c ? ",\"" : "\"") + e.first + "\":" + dec(e.second); c = true; } } s += "}";
    add("map", s, o.map.empty());
    add("name", "\"" + o.name + "\"", o.name.empty());
    s = "{"; { bool c = false; for (auto& e : o.named) { s += (c ? ",\"" : "\"") + e.first + "\":" + leafText(e.second, compact); c = true; } } s += "}";
    add("named", s, o.named.empty());
    add("next", o.next ? reference(*o.next, compact) : "null", !o.next);
    add("num", o.num ? dec(*o.num) : "null", !o.num || *o.num == 0);
    add("ptext", o.ptext ? "\"" + *o.ptext + "\"" : "null", !o.ptext || o.ptext->empty());
    add("raw", leafPtr(o.raw), !o.raw);
    char b[32]; snprintf(b, sizeof b, "%g", o.real);
    add("real", b, o.real == 0);
    add("shared", leafPtr(o.shared.get()), !o.shared);
    add("unique", leafPtr(o.unique.get()), !o.unique);
    return object(f, compact);
}
// removes the layout and checks it: a line starts at four spaces per bracket left open at the end of
// a line
std::string strip(const std::string& doc, bool pretty)
{
    std::string out;
    std::vector<char> open; // whether each open bracket ended its line
    size_t depth = 0;       // those that did
    bool text = false;
    for (size_t i = 0; i < doc.size(); ++i) {
        char c = doc[i];
        if (text) {
            out.push_back(c);
            if (c == '\\') out.push_back(doc[++i]);
            else if (c == '"') text = false;
            continue;
        }
        if (c == '\n') {
            sym_check(pretty, "new line in a document on a single line");
            size_t k = 0;
            static const std::string blank(256, ' ');
            while (i + 1 + 256 < doc.size() && !memcmp(&doc[i + 1], &blank[0], 256)) { i += 256; k += 256; }
            while (i + 1 < doc.size() && doc[i + 1] == ' ') { i++; k++; }
            sym_check(i + 1 < doc.size(), "new line at the end of the document");
            char next = doc[i + 1];
            size_t want = depth - ((next == '}' || next == ']') && !open.empty() && open.back() ? 1 : 0);
            sym_check(k == 4 * want, "indentation is four spaces per level");
            continue;
        }
        if (c == ' ') { sym_check(pretty, "space in a document without layout"); continue; }
        sym_check(c != '\t' && c != '\r', "unexpected white space");
        if (c == '{' || c == '[') { open.push_back(i + 1 < doc.size() && doc[i + 1] == '\n'); depth += open.back(); }
        if (c == '}' || c == ']') { sym_check(!open.empty(), "unbalanced brackets"); depth -= open.back(); open.pop_back(); }
        if (c == '"') text = true;
        out.push_back(c);
    }
    sym_check(open.empty() && !text, "unbalanced document");
    return out;
}
} // namespace

extern "C" void prop_layout()
{
    sym_expect("pretty"); sym_expect("compact"); sym_expect("plain");
    preloadJson();
    Node a;
    unsigned st = style();
    switch (sym_choose(5, "what")) {
    case 0: { // containers empty or not
        unsigned m = sym_choose(32, "filled");
        if (m & 1) a.list.push_back(1);
        if (m & 2) { a.map["b"] = 2; a.map["a"] = 0; }
        if (m & 4) a.name = "t";
        if (m & 8) a.raw = new Leaf;
        if (m & 16) a.num = new int64_t(m & 1);
        break;
    }
    case 1: {
        size_t n = sym_choose(B_L + 1, "size"), k = sym_choose(B_L + 1, "size");
        for (size_t i = 0; i < n; ++i) { a.leaves.resize(i + 1); if (i == 0) a.leaves[0].n = int8_t(sym_u(8, "leaf")); }
        for (size_t i = 0; i < k; ++i) { Leaf& l = a.named[std::string(1, char('m' - i))]; l.n = i; l.b = sym_choose(2, "leaf flag"); }
        break;
    }
    case 2: {
        size_t n = sym_choose(B_L + 1, "size");
        for (size_t i = 0; i < n; ++i) {
            a.lol.resize(i + 1); a.lom.resize(i + 1);
            size_t k = sym_choose(B_L + 1, "inner size");
            for (size_t j = 0; j < k; ++j) { a.lol[i].push_back(std::string(j, 'q')); a.lom[i][std::string(j + 1, 'r')] = j & 1; }
            a.lop.push_back(k & 1 ? std::shared_ptr<int64_t>(new int64_t(k)) : nullptr);
        }
        break;
    }
    case 3: a.id = sym_i64("id"); a.flag = sym_choose(2, "flag"); break;
    case 4: {
        size_t n = sym_choose(B_L + 1, "length");
        Node* last = &a;
        for (size_t i = 0; i < n; ++i) { last->next = new Node; last = last->next; last->list.resize(i); }
        a.shared.reset(new Leaf); a.real = 1.5; a.ptext.reset(new std::string(n, 'v'));
        break;
    }
    }
    bool compact = st & Writer::Compact, pretty = st & Writer::Pretty;
    sym_cover(pretty ? "pretty" : compact ? "compact" : "plain");
    std::string doc = strip(write(a, st), pretty);
    std::string ref = reference(a, compact);
    sym_check(same(doc, ref), "printed document differs from the content");
}

extern "C" void prop_layout_generic()
{
    sym_expect("first skipped");
    preload();
    unsigned st = style();
    bool obj = sym_choose(2, "kind");
    size_t n = sym_choose(4, "size");
    unsigned skip = 0;
    bool withSkip = sym_choose(2, "skip function");
    if (withSkip && n) skip = sym_choose(1u << n, "skipped");
    if (skip & 1) sym_cover("first skipped");
    std::ostringstream os;
    Writer w(os, Writer::Options(st));
    std::vector<std::string> keys;
    for (size_t i = 0; i < n; ++i) keys.push_back(std::string(1, char('a' + i)));
    auto nested = [&] { printArray(w, 2, [&] (size_t j) { printInt(w, int64_t(j)); }); };
    if (obj) {
        auto fn = [&] (const std::string& k) { if (k == "b") nested(); else printBool(w, true); };
        if (withSkip) printObject(w, keys, fn, [&] (const std::string& k) { return bool(skip >> (k[0] - 'a') & 1); });
        else printObject(w, keys, fn);
    }
    else {
        auto fn = [&] (size_t i) { if (i == 1) nested(); else printNull(w); };
        if (withSkip) printArray(w, n, fn, [&] (size_t i) { return bool(skip >> i & 1); });
        else printArray(w, n, fn);
    }
    sym_check(!w.error(), "printing reported an error");
    std::string ref = obj ? "{" : "[";
    bool first = true;
    for (size_t i = 0; i < n; ++i) {
        if (skip >> i & 1) continue;
        if (!first) ref += ",";
        first = false;
        if (obj) ref += "\"" + keys[i] + "\":";
        ref += i == 1 ? "[0,1]" : obj ? "true" : "null";
    }
    ref += obj ? "}" : "]";
    std::string doc = strip(os.str(), st & Writer::Pretty);
    sym_check(same(doc, ref), "printed document differs from what was asked for");
}

namespace {
// one entry per level keeps the document small, two make every level indent
void nest(Writer& w, size_t depth, bool obj, bool two)
{
    if (!depth) { printBool(w, true); return; }
    if (obj) {
        std::vector<std::string> keys(1, "a");
        if (two) keys.push_back("b");
        printObject(w, keys, [&] (const std::string& k) { if (k == "a") nest(w, depth - 1, obj, two); else printNull(w); });
    }
    else printArray(w, two ? 2 : 1, [&] (size_t i) { if (i == 0) nest(w, depth - 1, obj, two); else printNull(w); });
}
}
extern "C" void prop_layout_deep()
{
    sym_expect("done");
    preload();
    bool obj = sym_choose(2, "kind"), two = sym_choose(2, "two");
    std::ostringstream os;
    Writer w(os, Writer::Pretty);
    nest(w, B_D, obj, two);
    sym_check(!w.error(), "printing reported an error");
    std::string doc = strip(os.str(), true), ref;
    for (size_t i = 0; i < B_D; ++i) ref += obj ? "{\"a\":" : "[";
    ref += "true";
    for (size_t i = 0; i < B_D; ++i) ref += obj ? (two ? ",\"b\":null}" : "}") : (two ? ",null]" : "]");
    sym_check(same(doc, ref), "deeply nested document");
    sym_cover("done");
}

namespace jd {
struct Keyed { int64_t a, b, c; Keyed() : a(1), b(2), c(3) {} };
std::string keyed[3];
}
reflectType(jd::Keyed)
{
    reflectPlumbing();
    reflectField(a); reflectField(b); reflectField(c);
    reflectFieldValue(a, json, json::alias(jd::keyed[0])); reflectFieldValue(b, json, json::alias(jd::keyed[1])); reflectFieldValue(c, json, json::alias(jd::keyed[2]));
}
extern "C" void prop_layout_keys()
{
    sym_expect("in order"); sym_expect("reversed");
    preload();
    char k[3];
    for (int i = 0; i < 3; ++i) {
        char c = char(sym_u(8, "key"));
        sym_assume((unsigned char)c > 0x20 && (unsigned char)c < 0x7f && c != '"' && c != '\\' && c != '/');
        for (int j = 0; j < i; ++j) sym_assume(k[j] != c);
        k[i] = c; jd::keyed[i] = std::string(1, c);
    }
    unsigned st = style();
    jd::Keyed o;
    std::ostringstream os;
    Writer w(os, Writer::Options(st));
    sym_check(!raises([&] { auto e = json::print(w, o); sym_check(!e, "object could not be printed"); }), "printing raised");
    std::string doc = strip(os.str(), st & Writer::Pretty);
    sym_check(doc.size() == 19, "size of the document");
    if (doc.size() != 19) return;
    for (int i = 0; i < 3; ++i) {
        const char* m = doc.data() + 1 + 6 * i;
        sym_check(m[-1] == (i ? ',' : '{') && m[0] == '"' && m[2] == '"' && m[3] == ':' && m[4] >= '1' && m[4] <= '3', "member of the object");
        sym_check(m[1] == k[m[4] - '1'], "value under the key of its field");
        if (i) sym_check((unsigned char)m[1] > (unsigned char)m[-5], "keys are sorted");
    }
    sym_check(doc[18] == '}', "end of the object");
    sym_cover(k[0] < k[1] && k[1] < k[2] ? "in order" : k[0] > k[1] && k[1] > k[2] ? "reversed" : "other");
}
