// Arbitrary bytes into every kind of target.
// @check J01 libs=core,prims,std,json entries=prop_scalars,prop_containers,prop_objects,prop_pointers,prop_untyped,prop_values,prop_deep quick=-DB_N=3,-DB_M=2 thorough=-DB_N=4,-DB_M=3 steps=200000000
// @bounds J01 every text of up to N bytes, and of up to M bytes in the middle of documents which reach the inside of texts, numbers, lists, maps, objects and pointers, over all 256 byte values, into booleans, integers, floats, texts, lists, maps, objects, lists of objects, raw, shared and unique pointers (null or not) and untyped values; documents nested 250 to 500 and 50000 levels deep, closed or not
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <sstream>
#include <cstring>
#ifndef B_N
#define B_N 2
#endif
#ifndef B_M
#define B_M 1
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Inner { int64_t n; std::string s; bool b; Inner() : n(1), b(true) {} };
struct Outer { double a; Inner b; std::vector<int64_t> c; std::map<std::string, std::string> d; Inner* p; std::shared_ptr<Inner> q;
    Outer() : a(0), p(nullptr) {} ~Outer() { delete p; } Outer(const Outer&) = delete; Outer(Outer&& o) : a(o.a), b(o.b), c(std::move(o.c)), d(std::move(o.d)), p(o.p), q(std::move(o.q)) { o.p = nullptr; }
    Outer& operator=(Outer&& o) { std::swap(a, o.a); std::swap(b, o.b); c.swap(o.c); d.swap(o.d); std::swap(p, o.p); q.swap(o.q); return *this; } };
}
namespace jd { struct Node { std::vector<Node> kids; std::shared_ptr<Node> next; std::map<std::string, Node> names; }; }
reflectType(jd::Inner) { reflectPlumbing(); reflectAlloc(); reflectField(n); reflectField(s); reflectField(b); }
reflectType(jd::Outer) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(c); reflectField(d); reflectField(p); reflectField(q); }
reflectType(jd::Node) { reflectPlumbing(); reflectAlloc(); reflectField(kids); reflectField(next); reflectField(names); }
typedef std::vector<int64_t> IntList;
typedef std::vector<std::vector<std::string>> TextLists;
typedef std::map<std::string, bool> BoolMap;
typedef std::vector<jd::Inner> InnerList;
typedef std::map<std::string, std::shared_ptr<jd::Inner>> InnerMap;
reflectTypeLoader(IntList)
reflectTypeLoader(TextLists)
reflectTypeLoader(BoolMap)
reflectTypeLoader(InnerList)
reflectTypeLoader(InnerMap)

namespace {
struct Around { const char* pre; const char* post; };

// a document: free bytes on their own or in the middle of a given text
std::string document(const Around* around, unsigned n, bool comments)
{
    unsigned char b[B_N > B_M ? B_N : B_M];
    unsigned k = sym_choose(n + 1, "around");
    std::string d;
    if (k == 0) {
        size_t len = sym_choose(B_N + 1, "len");
        sym_bytes(b, len, "text");
        return std::string((char*)b, len);
    }
    (void)comments;
    size_t len = sym_choose(B_M + 1, "len");
    sym_bytes(b, len, "text");
    return around[k - 1].pre + std::string((char*)b, len) + around[k - 1].post;
}
template<typename T, typename V>
void run(T& target, const std::string& doc, const char* good, V valid, bool show = true)
{
    {
        std::istringstream is(doc);
        Reader r(is);
        bool threw = raises([&] { json::parse(r, target); });
        sym_check(!threw, "parsing arbitrary bytes raised");
        sym_check(valid(), "target isn't a valid object any more");
        if (!r.error()) {
            sym_cover("accepted");
            std::istringstream is2(doc);
            Reader r2(is2);
            json::skip(r2);
            sym_check(!r2.error(), "malformed document was accepted");
        }
        else sym_cover("rejected");
    }
    { // printing it works and so does reading into it again
        std::ostringstream os;
        if (show) sym_check(!raises([&] { json::print(os, target); }), "printing the target raised");
        bool bad = true;
        sym_check(!raises([&] { auto e = json::parse(std::string(good), target); bad = e; }), "parsing into the target again raised");
        sym_check(!bad, "parsing into the target again failed");
    }
}
template<typename T> void warm(const char* doc) { T t; json::parse(std::string(doc), t); std::ostringstream os; json::print(os, t); }
void live(long before) { sym_check(sym_live() == before, "parsing arbitrary bytes leaked"); }
} // namespace

extern "C" void prop_scalars()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const Around num[] = { { "-1", "" }, { "1.", "5" }, { "1e", "" }, { "1e30", "" }, { "922337203685477580", "" } };
    static const Around txt[] = { { "\"", "\"" }, { "\"\\u", "\"" }, { "\"\\ud83d\\u", "0\"" }, { "\"\xf0\x9f", "\"" } };
    static const Around boo[] = { { "tru", "" }, { "f", "se" } };
    warm<bool>("true"); warm<int64_t>("1"); warm<double>("1.5"); warm<std::string>("\"a\"");
    switch (sym_choose(4, "target")) {
    case 0: { std::string d = document(boo, 2, false); long l = sym_live(); { bool v = true; run(v, d, "false", [&] { return (unsigned char)v <= 1; }); sym_check(!v, "second value"); } live(l); break; }
    case 1: { std::string d = document(num, 5, false); long l = sym_live(); { int64_t v = 5; run(v, d, "7", [] { return true; }); sym_check(v == 7, "second value"); } live(l); break; }
    case 2: { std::string d = document(num, 5, false); long l = sym_live(); { double v = 5; run(v, d, "7", [&] { return true; }, false); sym_check(v == 7.0, "second value"); } live(l); break; }
    case 3: { std::string d = document(txt, 4, false); long l = sym_live(); { std::string v; run(v, d, "\"x\"", [&] { return v.size() <= d.size() && strlen(v.c_str()) <= v.size(); }); sym_check(v == "x", "second value"); } live(l); break; }
    }
}
extern "C" void prop_containers()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const Around ints[] = { { "[1", "2]" }, { "[", "" }, { "[1,2", "" } };
    static const Around lists[] = { { "[[\"a\"", "\"b\"]]" }, { "[[", "]]" }, { "[[]", "" } };
    static const Around maps[] = { { "{\"a", "true}" }, { "{\"a\":true", "" }, { "{\"a\":", "}" } };
    warm<IntList>("[1]"); warm<TextLists>("[[\"a\"]]"); warm<BoolMap>("{\"a\":true}");
    switch (sym_choose(3, "target")) {
    case 0: { std::string d = document(ints, 3, false); long l = sym_live(); { IntList v(1, 5); run(v, d, "[7]", [&] { return v.size() >= 1 && v[0] == 5 && v.size() <= 1 + d.size(); }); sym_check(v.back() == 7, "second value"); } live(l); break; }
    case 1: { std::string d = document(lists, 3, false); long l = sym_live(); { TextLists v; run(v, d, "[[\"x\"]]", [&] { for (auto& x : v) for (auto& s : x) if (s.size() > d.size()) return false; return v.size() <= d.size(); }); sym_check(v.back().back() == "x", "second value"); } live(l); break; }
    case 2: { std::string d = document(maps, 3, false); long l = sym_live(); { BoolMap v; run(v, d, "{\"x\":true}", [&] { for (auto& x : v) if (x.first.size() > d.size()) return false; return v.size() <= d.size(); }); sym_check(v["x"], "second value"); } live(l); break; }
    }
}
extern "C" void prop_objects()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const Around objs[] = { { "{\"a", "1}" }, { "{\"b\":{\"n\":1", "}}" }, { "{\"b\":{\"s\":\"", "\"}}" }, { "{\"c\":[", "]}" }, { "{\"d\":{\"k\":\"v\"", "}}" }, { "{\"p\":", "}" }, { "{\"q\":{", "}}" } };
    static const Around lists[] = { { "[{\"n\":3", "},{}]" }, { "[{", "}]" } };
    warm<jd::Outer>("{\"a\":1.5,\"b\":{\"n\":1,\"s\":\"a\",\"b\":true},\"c\":[1],\"d\":{\"a\":\"b\"},\"p\":{\"n\":1},\"q\":{\"n\":1}}"); warm<InnerList>("[{}]");
    if (sym_choose(2, "target")) {
        std::string d = document(objs, 7, false); long l = sym_live();
        {
            jd::Outer v;
            run(v, d, "{\"a\":2.5,\"b\":{\"n\":7},\"p\":{\"n\":8},\"q\":{\"n\":9}}", [&] { v.a = 0; return v.c.size() <= d.size() && v.d.size() <= d.size() && v.b.s.size() <= d.size(); });
            sym_check(v.a == 2.5 && v.b.n == 7 && v.p && v.p->n == 8 && v.q && v.q->n == 9, "second value");
        }
        live(l);
    }
    else {
        std::string d = document(lists, 2, false); long l = sym_live();
        { InnerList v; run(v, d, "[{\"n\":7}]", [&] { return v.size() <= d.size(); }); sym_check(v.back().n == 7 && v.back().b, "second value"); }
        live(l);
    }
}
extern "C" void prop_pointers()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const Around objs[] = { { "{\"n\":", "}" }, { "{\"s\":\"", "" }, { "nul", "" } };
    static const Around nums[] = { { "1", "" }, { "nul", "" } };
    static const Around maps[] = { { "{\"k\":{\"n\":2", "}}" }, { "{\"k\":", "}" } };
    warm<std::shared_ptr<jd::Inner>>("{}"); warm<std::unique_ptr<jd::Inner>>("{}"); warm<InnerMap>("{\"a\":{}}");
    { jd::Inner* p = nullptr; json::parse(std::string("{}"), p); std::ostringstream os; json::print(os, p); delete p; }
    { int64_t* p = nullptr; json::parse(std::string("1"), p); std::ostringstream os; json::print(os, p); delete p; }
    { bool* p = nullptr; json::parse(std::string("true"), p); std::ostringstream os; json::print(os, p); delete p; }
    bool null = sym_choose(2, "null");
    switch (sym_choose(6, "target")) {
    case 0: { std::string d = document(objs, 3, false); long l = sym_live(); { std::shared_ptr<jd::Inner> v(null ? nullptr : new jd::Inner); run(v, d, "{\"n\":7}", [] { return true; }); sym_check(v && v->n == 7, "second value"); } live(l); break; }
    case 1: { std::string d = document(objs, 3, false); long l = sym_live(); { std::unique_ptr<jd::Inner> v(null ? nullptr : new jd::Inner); run(v, d, "{\"n\":7}", [] { return true; }); sym_check(v && v->n == 7, "second value"); } live(l); break; }
    case 2: {
        std::string d = document(objs, 3, false); long l = sym_live();
        {
            jd::Inner own; jd::Inner* v = null ? nullptr : &own;
            run(v, d, "{\"n\":7}", [] { return true; });
            sym_check(v && v->n == 7, "second value");
            if (v != &own) delete v;
        }
        live(l); break;
    }
    case 3: {
        std::string d = document(nums, 2, false); long l = sym_live();
        { int64_t own = 5; int64_t* v = null ? nullptr : &own; run(v, d, "7", [&] { return !v || *v == *v; }); sym_check(v && *v == 7, "second value"); if (v != &own) delete v; }
        live(l); break;
    }
    case 4: {
        std::string d = document(nums, 2, false); long l = sym_live();
        { bool own = true; bool* v = null ? nullptr : &own; run(v, d, "true", [&] { return !v || (unsigned char)*v <= 1; }); sym_check(v && *v, "second value"); if (v != &own) delete v; }
        live(l); break;
    }
    case 5: { std::string d = document(maps, 2, false); long l = sym_live(); { InnerMap v; if (!null) v["k"].reset(new jd::Inner); run(v, d, "{\"x\":{\"n\":7}}", [&] { return v.size() <= 1 + d.size(); }); sym_check(v["x"] && v["x"]->n == 7, "second value"); } live(l); break; }
    }
}
extern "C" void prop_untyped()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const Around docs[] = { { "[1", "2]" }, { "{\"a\":[", "{}]}" }, { "[[\"", "\"]]" }, { "{\"", "\":1}" } };
    static const char* const seen[] = { "true", "1", "1.5", "\"a\"", "[1]", "{\"a\":[1,{\"b\":null}]}" };
    for (const char* k : seen) { Value t; json::parse(std::string(k), t); std::ostringstream os; Writer w(os); json::print(w, t); }
    std::string d = document(docs, 4, false);
    long l = sym_live();
    {
        Value v;
        std::istringstream is(d);
        Reader r(is);
        sym_check(!raises([&] { json::parse(r, v); }), "parsing arbitrary bytes raised");
        sym_check(v.isVoid() || v.isStored(), "target isn't a valid value any more");
        if (!r.error()) {
            sym_cover("accepted");
            std::istringstream is2(d);
            Reader r2(is2);
            json::skip(r2);
            sym_check(!r2.error(), "malformed document was accepted");
        }
        else sym_cover("rejected");
        std::ostringstream os;
        if (!v.isVoid() && v.type() != type<double>()) sym_check(!raises([&] { Writer w(os); json::print(w, v); }), "printing the target raised");
        Value copy = v;
        v = Value();
        Value x;
        auto e = json::parse(std::string("7"), x);
        sym_check(!e && x.get<int64_t>() == 7, "second value");
    }
    live(l);
}
// values whose parser isn't the one of the target: every kind of well formed value into every target
extern "C" void prop_values()
{
    sym_expect("accepted"); sym_expect("rejected");
    preload();
    static const char* const docs[] = { "null", "true", "12", "1.5", "\"t\"", "[]", "[null]", "{}", "{\"a\":null}", "{\"b\":[],\"b\":{}}", "[[],{}]", "-0", "1e400", "99999999999999999999", "\"\\u0000\"", "{\"\":0}" };
    const char* d = docs[sym_choose(16, "doc")];
    switch (sym_choose(13, "target")) {
#define ONE(k, T, good) case k: { warm<T>(good); long l = sym_live(); { T v = T(); run(v, d, good, [] { return true; }); } live(l); break; }
    ONE(0, bool, "true")
    ONE(1, int64_t, "1")
    ONE(2, double, "1")
    ONE(3, std::string, "\"a\"")
    ONE(4, IntList, "[1]")
    ONE(5, TextLists, "[[\"a\"]]")
    ONE(6, BoolMap, "{\"a\":true}")
    ONE(7, InnerList, "[{}]")
    ONE(8, InnerMap, "{\"a\":{}}")
    ONE(9, std::shared_ptr<jd::Inner>, "{}")
    ONE(10, std::unique_ptr<jd::Inner>, "{}")
    ONE(11, jd::Inner, "{\"n\":1}")
    ONE(12, jd::Outer, "{\"a\":1}")
    }
}

// however deep a document is nested
extern "C" void prop_deep()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("deep");
    preload(); type<jd::Node>();
    static const struct { const char* head; const char* open; const char* last; const char* close; const char* tail; } kinds[] = {
        { "", "[", "1", "]", "" }, { "", "{\"a\":", "1", "}", "" }, { "{\"zz\":", "[", "1", "]", "}" }, { "{\"zz\":", "{\"a\":", "1", "}", "}" },
        { "", "{\"kids\":[", "{}", "]}", "" }, { "", "{\"next\":", "{}", "}", "" }, { "", "{\"names\":{\"k\":", "{}", "}}", "" } };
    unsigned k = sym_choose(7, "kind");
    bool deep = sym_choose(2, "deep"), closed = sym_choose(2, "closed");
    size_t n = deep ? 50000 : k == 4 || k == 6 ? 250 : 500;
    std::string doc = kinds[k].head;
    for (size_t i = 0; i < n; ++i) doc += kinds[k].open;
    doc += kinds[k].last;
    if (closed) { for (size_t i = 0; i < n; ++i) doc += kinds[k].close; doc += kinds[k].tail; }
    bool ok = false;
    std::istringstream is(doc);
    Reader r(is);
    sym_check(!raises([&] {
        if (k < 2) { Value v; json::parse(r, v); }
        else if (k < 4) { jd::Inner v; json::parse(r, v); }
        else { jd::Node v; json::parse(r, v); }
        ok = !r.error();
    }), "parsing a nested document raised");
    if (!closed) sym_check(!ok, "malformed document was accepted");
    if (closed && !deep) sym_check(ok, "well formed document was refused");
    sym_cover(deep ? "deep" : ok ? "accepted" : "rejected");
}
