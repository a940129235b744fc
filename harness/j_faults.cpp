// Exceptions raised by user code while documents are parsed and printed.
// @check J20 libs=core,prims,std,json entries=prop_parse_faults,prop_print_faults,prop_json_many quick=-DB_K=24,-DB_M=300 thorough=-DB_K=40,-DB_M=1100
// @bounds J20 documents of 11 kinds of members (objects, lists, maps, raw, shared and unique pointers, custom functions, each alone or all together); the first B_K user operations (constructors, assignments, custom functions) can be the failing one, with three types of exceptions, on first use of the types or later; arbitrary digits as content; one retry; and B_M failures in a row for a member of each kind, with one writer or one for each document
#include "types.h"
#include "types/pointer.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include "utils/json.h"
#include <sstream>
#include <map>
#include <stdexcept>
using namespace reflect;
using ht::Counted;
#ifndef B_K
#define B_K 24
#endif
#ifndef B_M
#define B_M 40
#endif

namespace jf {
struct Fault { int64_t x; };
long ops, failAt = -1; int64_t payload;
unsigned how;
struct Failure : std::runtime_error { int64_t x; Failure(int64_t x) : std::runtime_error("failure"), x(x) {} };
void tick()
{
    if (ops++ != failAt) return;
    if (how == 0) throw Fault{payload};
    if (how == 1) throw Failure(payload);
    throw reflect::Error("user error");
}
struct F : Counted
{
    int64_t v;
    F() : v(0) { tick(); }
    F(const F& o) : Counted(o), v(o.v) { tick(); }
    F(F&& o) : Counted(std::move(o)), v(o.v) { tick(); o.v = -1; }
    F& operator=(const F& o) { o.check(); tick(); v = o.v; return *this; }
    F& operator=(F&& o) { o.check(); tick(); v = o.v; if (&o != this) o.v = -1; return *this; }
};
struct G : F                                           // with custom functions
{
    void read(json::Reader& r) { tick(); v = json::parseInt(r); tick(); }
    void write(json::Writer& w) const { tick(); json::printInt(w, v); tick(); }
};
struct R
{
    F obj; std::vector<F> list; std::map<std::string, F> map; std::shared_ptr<F> shared; std::unique_ptr<F> unique; F* raw;
    G cust; std::vector<G> clist; std::map<std::string, G> cmap; std::shared_ptr<G> cshared; G* craw;
    R() : raw(nullptr), craw(nullptr) {}
    ~R() { delete raw; delete craw; }
    R(const R&) = delete; R& operator=(const R&) = delete;
};
}
reflectType(jf::F) { reflectPlumbing(); reflectAlloc(); reflectField(v); }
reflectType(jf::G) { reflectPlumbing(); reflectAlloc(); reflectFn(read); reflectFn(write); reflectTypeValue(json, json::custom("read", "write")); }
reflectType(jf::R)
{
    reflectField(obj); reflectField(list); reflectField(map); reflectField(shared); reflectField(unique); reflectField(raw);
    reflectField(cust); reflectField(clist); reflectField(cmap); reflectField(cshared); reflectField(craw);
}

namespace {
using namespace jf;
enum { KINDS = 11 };
template<typename Fn> bool attempt(long k, Fn fn)
{
    ops = 0; failAt = k;
    bool failed = false;
    try { fn(); }
    catch (const Fault& f) { failed = true; sym_check(how == 0 && f.x == payload, "the exception arrives as it was thrown"); }
    catch (const Failure& f) { failed = true; sym_check(how == 1 && f.x == payload && std::string(f.what()) == "failure", "the exception arrives as it was thrown"); }
    catch (const reflect::Error& e) { failed = true; sym_check(how == 2 && std::string(e.what()) == "user error", "the exception arrives as it was thrown"); }
    failAt = -1;
    sym_check(failed == (ops > k), "the exception reaches the caller");
    sym_cover(failed ? "failed" : "went through");
    return !failed;
}
// the members in the order in which they are printed
const char* const names[] = { "clist", "cmap", "craw", "cshared", "cust", "list", "map", "obj", "raw", "shared", "unique" };
std::string member(int i, char a, char b)
{
    std::string n = std::string("\"") + names[i] + "\":", o = std::string("{\"v\":") + a + "}", p = std::string("{\"v\":") + b + "}";
    switch (i) {
    case 0: return n + "[" + a + "," + b + "]"; case 1: return n + "{\"x\":" + a + ",\"y\":" + b + "}"; case 2: case 3: case 4: return n + a;
    case 5: return n + "[" + o + "," + p + "]"; case 6: return n + "{\"x\":" + o + ",\"y\":" + p + "}"; default: return n + o;
    }
}
bool holds(const R& r, int i, int64_t a, int64_t b)
{
    switch (i) {
    case 0: return r.clist.size() == 2 && r.clist[0].v == a && r.clist[1].v == b;
    case 1: return r.cmap.size() == 2 && r.cmap.at("x").v == a && r.cmap.at("y").v == b;
    case 2: return r.craw && r.craw->v == a; case 3: return r.cshared && r.cshared->v == a; case 4: return r.cust.v == a;
    case 5: return r.list.size() == 2 && r.list[0].v == a && r.list[1].v == b;
    case 6: return r.map.size() == 2 && r.map.at("x").v == a && r.map.at("y").v == b;
    case 7: return r.obj.v == a; case 8: return r.raw && r.raw->v == a; case 9: return r.shared && r.shared->v == a; default: return r.unique && r.unique->v == a;
    }
}
bool empty(const R& r, int i)
{
    switch (i) {
    case 0: return r.clist.empty(); case 1: return r.cmap.empty(); case 2: return !r.craw; case 3: return !r.cshared; case 4: return r.cust.v == 0;
    case 5: return r.list.empty(); case 6: return r.map.empty(); case 7: return r.obj.v == 0; case 8: return !r.raw; case 9: return !r.shared; default: return !r.unique;
    }
}
void fill(R& r, int i, int64_t a, int64_t b)
{
    switch (i) {
    case 0: r.clist.resize(2); r.clist[0].v = a; r.clist[1].v = b; break; case 1: r.cmap["x"].v = a; r.cmap["y"].v = b; break;
    case 2: r.craw = new G(); r.craw->v = a; break; case 3: r.cshared.reset(new G()); r.cshared->v = a; break; case 4: r.cust.v = a; break;
    case 5: r.list.resize(2); r.list[0].v = a; r.list[1].v = b; break; case 6: r.map["x"].v = a; r.map["y"].v = b; break;
    case 7: r.obj.v = a; break; case 8: r.raw = new F(); r.raw->v = a; break; case 9: r.shared.reset(new F()); r.shared->v = a; break; default: r.unique.reset(new F()); r.unique->v = a; break;
    }
}
bool has(unsigned kind, int i) { return kind == KINDS || int(kind) == i; }
void expect() { sym_expect("failed"); sym_expect("went through"); }
}

extern "C" void prop_parse_faults()
{
    expect(); preload();
    payload = sym_i64("payload");
    unsigned kind = sym_choose(KINDS + 1, "kind"), used = sym_choose(2, "types in use");
    how = used ? kind % 3 : sym_choose(3, "exception");
    long k = long(sym_choose(B_K, "failing operation"));
    unsigned char a = (unsigned char)sym_u(8, "a"), b = (unsigned char)sym_u(8, "b");
    sym_assume(a >= '0' && a <= '9' && b >= '0' && b <= '9');
    std::string doc = "{";
    for (int i = 0; i < KINDS; ++i) if (has(kind, i)) { if (doc.size() > 1) doc += ","; doc += member(i, char(a), char(b)); }
    doc += "}";
    {
        if (used) { R w; auto e = json::parse(doc, w); sym_check(!e, "document was refused"); }
        R r; bool refused = false;
        long live = Counted::live;
        bool ok = attempt(k, [&] { auto e = json::parse(doc, r); refused = bool(e); });
        sym_check(!refused, "document was refused");
        for (int i = 0; i < KINDS; ++i) {
            if (ok) sym_check(has(kind, i) ? holds(r, i, a - '0', b - '0') : empty(r, i), "content of the document");
            else if (!has(kind, i)) sym_check(empty(r, i), "a failure leaves other members alone");
        }
        if (!ok) {
            long mine = Counted::live - live;
            sym_check(mine == long(r.clist.size() + r.cmap.size() + (r.craw ? 1 : 0) + (r.cshared ? 1 : 0) + r.list.size() + r.map.size() + (r.raw ? 1 : 0) + (r.shared ? 1 : 0) + (r.unique ? 1 : 0)), "a failure leaves nothing behind");
            R t;
            ok = attempt(100000, [&] { auto e = json::parse(doc, t); refused = bool(e); });
            sym_check(ok && !refused, "the document is accepted when it's tried again");
            for (int i = 0; i < KINDS; ++i) sym_check(has(kind, i) ? holds(t, i, a - '0', b - '0') : empty(t, i), "content of the document when it's tried again");
        }
    }
    sym_check(Counted::live == 0, "leak");
}

extern "C" void prop_print_faults()
{
    expect(); preload();
    payload = sym_i64("payload");
    unsigned kind = sym_choose(KINDS + 1, "kind"), used = sym_choose(2, "types in use");
    how = used ? kind % 3 : sym_choose(3, "exception");
    long k = long(sym_choose(B_K, "failing operation"));
    unsigned char a = (unsigned char)sym_u(8, "a"), b = (unsigned char)sym_u(8, "b");
    sym_assume(a >= '0' && a <= '9' && b >= '0' && b <= '9');
    {
        R r; std::string want = "{";
        for (int i = 0; i < KINDS; ++i) {
            if (has(kind, i)) fill(r, i, a - '0', b - '0');
            if (i) want += ",";
            if (has(kind, i)) { want += member(i, char(a), char(b)); continue; }
            want += std::string("\"") + names[i] + "\":";
            want += i == 0 || i == 5 ? "[]" : i == 1 || i == 6 ? "{}" : i == 4 ? "0" : i == 7 ? "{\"v\":0}" : "null";
        }
        want += "}";
        auto print = [&] (std::ostream& s) { json::Writer w(s, json::Writer::None); auto e = json::print(w, r); sym_check(!e, "printing was refused"); };
        std::stringstream first, again;
        if (used) { std::stringstream s; print(s); sym_check(s.str() == want, "printed document"); }
        long live = Counted::live;
        bool ok = attempt(k, [&] { print(first); });
        std::string text = first.str();
        if (ok) sym_check(text == want, "printed document");
        else {
            sym_check(text.size() < want.size() && text == want.substr(0, text.size()), "what was printed before the failure");
            ok = attempt(100000, [&] { print(again); });
            sym_check(ok && again.str() == want, "printed document when it's tried again");
        }
        sym_check(Counted::live == live, "a failure leaves nothing behind");
        for (int i = 0; i < KINDS; ++i) sym_check(has(kind, i) ? holds(r, i, a - '0', b - '0') : empty(r, i), "printing changes nothing");
    }
    sym_check(Counted::live == 0, "leak");
}

// failures don't add up: many of them in a row, with the same reader and writer or new ones
extern "C" void prop_json_many()
{
    preload(); sym_expect("failed"); sym_expect("went through");
    payload = sym_i64("payload"); how = 0;
    unsigned kind = sym_choose(KINDS, "kind"), one = sym_choose(2, "one stream");
    unsigned char a = (unsigned char)sym_u(8, "a"), b = (unsigned char)sym_u(8, "b");
    sym_assume(a >= '0' && a <= '9' && b >= '0' && b <= '9');
    std::string doc = "{" + member(kind, char(a), char(b)) + "}";
    {
        R r; fill(r, kind, a - '0', b - '0');
        { R w; auto e = json::parse(doc, w); sym_check(!e, "document was refused"); }
        { std::stringstream s; json::Writer w(s, json::Writer::None); json::print(w, r); }
        long live = Counted::live; bool custom = kind <= 4;
        std::stringstream all; json::Writer writer(all, json::Writer::None);
        for (int i = 0; i < B_M; ++i) {
            if (custom) {
                bool ok = attempt(0, [&] { if (one) json::print(writer, r); else { std::stringstream s; json::Writer w(s, json::Writer::None); json::print(w, r); } });
                sym_check(!ok && Counted::live == live, "a failure leaves nothing behind");
            }
            R t;
            bool ok = attempt(0, [&] { json::parse(doc, t); });
            sym_check(ok == (kind == 7), "what user code is run");
        }
        sym_check(Counted::live == live, "a failure leaves nothing behind");
        R t; bool refused = false;
        bool ok = attempt(100000, [&] { auto e = json::parse(doc, t); refused = bool(e); });
        sym_check(ok && !refused && holds(t, kind, a - '0', b - '0'), "a document is accepted after many failures");
        std::stringstream s; json::Writer w(s, json::Writer::None);
        ok = attempt(100000, [&] { auto e = json::print(w, r); refused = bool(e); });
        sym_check(ok && !refused && s.str().find(doc.substr(1, doc.size() - 2)) != std::string::npos, "an object is printed after many failures");
    }
    sym_check(Counted::live == 0, "leak");
}
