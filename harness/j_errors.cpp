// Errors of readers and writers, and the look-ahead of the reader.
// @check J12 libs=core,prims,std,json entries=prop_bytes,prop_lexemes,prop_targets,prop_writer,prop_latch quick=-DB_N=3,-DB_L=4 thorough=-DB_N=4,-DB_L=5
// @bounds J12 every text of up to N bytes and every sequence of up to L lexemes (white space, line ends, comments, every kind of token, truncated and malformed ones), comments allowed or not, into an untyped value, skip and reflected lists, maps and objects; pairs of unprintable values of each kind around each other; every sequence of four errors
// @check J15 libs=core,prims,std,json entries=prop_peek_bytes,prop_peek_lexemes,prop_expect quick=-DB_N=3,-DB_L=3 thorough=-DB_N=4,-DB_L=4
// @bounds J15 every text of up to N bytes and every sequence of up to L lexemes, zero to two peeks in front of every operation, each operation being a read, an expectation of any token type or a skip
#include "types.h"
#include "utils/json.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include <cstring>
#include <streambuf>
#include <istream>
#include <sstream>
#ifndef B_N
#define B_N 3
#endif
#ifndef B_L
#define B_L 3
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Inner { int64_t n; std::string s; Inner() : n(0) {} };
struct Outer { int64_t a; Inner b; std::vector<int64_t> c; Outer() : a(0) {} };
// reports two errors of its own
struct Twice { int64_t v; Twice() : v(0) {}
    void read(Reader& r) { json::skip(r); r.error("first %s", "own"); r.error("second %s", "own"); }
    void write(Writer& w) const { w.error("first %s", "own"); w.error("second %s", "own"); } };
struct Bad { double f; std::string s; Twice t; Bad() : f(0) {} };
}
reflectType(jd::Inner) { reflectPlumbing(); reflectField(n); reflectField(s); }
reflectType(jd::Outer) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(c); }
reflectType(jd::Twice) { reflectPlumbing(); reflectField(v); reflectFn(read); reflectFn(write); reflectTypeValue(json, json::custom("read", "write")); }
reflectType(jd::Bad) { reflectPlumbing(); reflectField(f); reflectField(s); reflectField(t); }
typedef std::vector<jd::Bad> BadList;
typedef std::vector<int64_t> IntList;
typedef std::map<std::string, bool> BoolMap;
reflectTypeLoader(BadList)
reflectTypeLoader(IntList)
reflectTypeLoader(BoolMap)

namespace {
bool same(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    bool eq = true;
    for (size_t i = 0; i < a.size(); ++i) eq = eq & (a[i] == b[i]);
    return eq;
}
std::string text(const reflect::Error& e) { return e.what(); }
bool starts(const std::string& s, const std::string& p) { return s.size() >= p.size() && same(s.substr(0, p.size()), p); }

// one block of text whose consumption can be observed
struct Source : std::streambuf
{
    explicit Source(const std::string& t) : text(t) { char* p = &text[0]; setg(p, p, p + text.size()); }
    size_t used() const { return gptr() - eback(); }
    std::string text;
};

// lexemes chosen when the reader gets to them
const char* const lexemes[] = { "\n", " ", "//c\n", "//", "[", "]", "{", "}", ",", ":", "1", "99999999999999999999", "1.5", "-", "1e999", "\"a\"", "\"\n", "\"b", "\"\\q\"", "\"\xff\"", "\"\\u12\n", "true", "tru", "null", "nul\n", "%", "/" };
const unsigned nlex = sizeof(lexemes) / sizeof(*lexemes);
struct Lexemes : std::streambuf
{
    size_t max, n; bool ended; std::string read; std::vector<unsigned> alpha;
    explicit Lexemes(size_t m) : max(m), n(0), ended(false) { for (unsigned i = 0; i < nlex; ++i) alpha.push_back(i); }
    void drop(std::initializer_list<const char*> l) { for (const char* d : l) for (size_t i = 0; i < alpha.size(); ++i) if (!strcmp(lexemes[alpha[i]], d)) { alpha.erase(alpha.begin() + i); break; } }
    std::string used() const { return read + std::string(eback(), gptr()); }
    int underflow()
    {
        if (gptr() < egptr()) return (unsigned char)*gptr();
        if (ended) return traits_type::eof();
        read += std::string(eback(), gptr());
        setg(nullptr, nullptr, nullptr);
        unsigned k = n < max ? sym_choose(alpha.size() + 1, "lexeme") : alpha.size();
        if (k == alpha.size()) { ended = true; return traits_type::eof(); }
        n++;
        char* s = const_cast<char*>(lexemes[alpha[k]]);
        setg(s, s, s + strlen(s));
        return (unsigned char)*s;
    }
};

// the error of a reader starts with the place it got to
void positioned(const std::string& err, const std::string& used, bool atEnd)
{
    auto place = [] (const std::string& s, size_t extra) {
        size_t line = 1, col = 1;
        for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') { line++; col = 1; } else col++; }
        char b[64]; snprintf(b, sizeof b, "%zu:%zu: ", line, col + extra);
        return std::string(b);
    };
    bool ok = starts(err, place(used, 0));
    if (atEnd && !ok) ok = starts(err, place(used, 1)); // the end itself counts as one position
    if (!ok && !used.empty() && used[used.size() - 1] == '\n') ok = starts(err, place(used.substr(0, used.size() - 1), 1)); // the line end is what was wrong
    sym_check(ok, "error doesn't start with the line and column reached");
}

template<typename B, typename F, typename U>
void run(B& buf, unsigned opts, F fn, U used)
{
    std::istream stream(&buf);
    Reader r(stream, Reader::Options(opts));
    sym_check(!r.error() && r.ok(), "fresh reader in error");
    bool threw = raises([&] { fn(r); });
    sym_check(!threw, "parsing raised");
    if (!r.error()) { sym_cover("fine"); return; }
    sym_cover("error");
    std::string err = text(r.error());
    sym_check(!r && !r.ok(), "reader in error tests true");
    positioned(err, used(), stream.eof());
    if (stream.eof()) sym_cover("end");
    if (r.line() > 1) sym_cover("line");
    // nothing after the first error replaces it
    r.error("another");
    Token t = r.nextToken();
    (void)t;
    raises([&] { fn(r); });
    sym_check(bool(r.error()) && same(text(r.error()), err), "first error was replaced");
    sym_check(!r, "reader in error tests true later");
}
} // namespace

extern "C" void prop_bytes()
{
    sym_expect("fine"); sym_expect("error"); sym_expect("end"); sym_expect("line");
    preload();
    unsigned char b[B_N];
    size_t n = sym_choose(B_N + 1, "len");
    unsigned opts = Reader::Default | (sym_choose(2, "comments") ? Reader::AllowComments : 0);
    sym_bytes(b, n, "text");
    Source s(std::string((char*)b, n));
    run(s, opts, [] (Reader& r) { json::skip(r); }, [&] { return s.text.substr(0, s.used()); });
}
extern "C" void prop_lexemes()
{
    sym_expect("fine"); sym_expect("error"); sym_expect("end"); sym_expect("line");
    preload();
    Lexemes s(B_L);
    unsigned opts = Reader::Default | (sym_choose(2, "comments") ? Reader::AllowComments : 0);
    run(s, opts, [] (Reader& r) { Value v; json::parse(r, v); }, [&] { return s.used(); });
}
extern "C" void prop_targets()
{
    sym_expect("fine"); sym_expect("error"); sym_expect("end"); sym_expect("line"); sym_expect("own");
    preload();
    Lexemes s(B_L);
    s.drop({ " ", "//c\n", "//", "/", "\"\\q\"", "\"\\u12\n", "nul\n", "tru", "\"b", "\"\xff\"", "-" });
    switch (sym_choose(5, "target")) {
    case 0: { IntList l; run(s, Reader::Default, [&] (Reader& r) { json::parse(r, l); }, [&] { return s.used(); }); break; }
    case 1: { BoolMap m; run(s, Reader::Default, [&] (Reader& r) { json::parse(r, m); }, [&] { return s.used(); }); break; }
    case 2: { jd::Outer o; run(s, Reader::Default, [&] (Reader& r) { json::parse(r, o); }, [&] { return s.used(); }); break; }
    case 3: { double d = 0; run(s, Reader::Default, [&] (Reader& r) { json::parse(r, d); }, [&] { return s.used(); }); break; }
    case 4: {
        jd::Twice t;
        std::istream is(&s);
        Reader r(is);
        sym_check(!raises([&] { json::parse(r, t); }), "custom parser raised");
        sym_check(bool(r.error()), "error of the custom parser");
        std::string e = text(r.error());
        if (e.find("own") != std::string::npos) {
            sym_check(e.find("first own") != std::string::npos, "second error kept");
            sym_cover("own");
        }
        positioned(e, s.used(), is.eof());
        break;
    }
    }
}
extern "C" void prop_writer()
{
    sym_expect("one"); sym_expect("two"); sym_expect("fine");
    preload();
    BadList list(2);
    static const double bad[] = { 0, 1.0 / 0.0, -1.0 / 0.0 };
    static const char* const words[] = { "", "\xff", "\xc3", "\xc3\x28", "\xed\xa0\x80" };
    // a failure at up to two of six places, in printing order: f, s, t of the first then of the second element
    auto fail = [&] (unsigned place, unsigned how) {
        jd::Bad& b = list[place / 2];
        if (place % 2 == 0) b.f = bad[1 + how % 2]; else b.s = words[1 + how % 4];
    };
    unsigned first = sym_choose(5, "first"), how = sym_choose(4, "how"), second = sym_choose(5, "second");
    sym_assume((first & 1) || how < 2);
    sym_assume(first < second || first == 4);
    unsigned style = sym_choose(2, "style") ? Writer::Default : Writer::Default | Writer::Pretty;
    // a single failure at that place is the reference
    auto attempt = [&] (bool both, std::string& msg) {
        list.clear(); list.resize(2);
        if (first < 4) fail(first, how);
        if (both && second < 4) fail(second, how + 1);
        std::ostringstream os;
        Writer w(os, Writer::Options(style));
        
        sym_check(!w.error() && bool(w), "fresh writer in error");
        // the elements one by one: the custom writers fail as well
        bool threw = raises([&] { for (auto& b : list) { json::print(w, b.f); json::print(w, b.s); } });
        sym_check(!threw, "printing raised");
        msg = text(w.error());
        sym_check(bool(w.error()) == !bool(w), "writer with a good stream tests true exactly without an error");
        return bool(w.error());
    };
    std::string alone, both;
    bool failed = attempt(false, alone), failed2 = attempt(true, both);
    if (first == 4) {
        sym_check(!failed, "error without a reason"); sym_cover("fine");
        sym_check(failed2 == (second < 4), "error of a later value lost");
        return;
    }
    sym_check(failed && failed2, "error lost");
    sym_check(same(alone, both), "later error replaced the first one");
    sym_cover(second < 4 ? "two" : "one");
    // within one document the custom writer's first error wins unless something failed before
    list.clear(); list.resize(2);
    if (first != 0 && first != 1) first = 4;
    if (first < 4) fail(first, how);
    std::ostringstream os;
    Writer w(os);
    auto e = json::print(w, list);
    sym_check(bool(e) && bool(w.error()) && same(text(e), text(w.error())), "error returned differs from the writer's");
    if (first < 4) sym_check(same(text(e), alone), "first error of a document"); else sym_check(same(text(e), "first own"), "first error of a custom writer");
}
extern "C" void prop_latch()
{
    sym_expect("set"); sym_expect("empty");
    bool writer = sym_choose(2, "writer");
    std::istringstream is("[]"); std::ostringstream os;
    Reader r(is); Writer w(os);
    static const char* const msgs[] = { "alpha %d", "beta %d", "gamma %d" };
    std::string want;
    sym_check(!json::Error() && !reflect::Error(), "default error converts to true");
    for (int i = 0; i < 4; ++i) {
        unsigned k = sym_choose(4, "error");
        if (k == 3) continue;
        if (writer) w.error(msgs[k], i); else r.error(msgs[k], i);
        if (want.empty()) { char b[32]; snprintf(b, sizeof b, msgs[k], i); want = (writer ? "" : "1:1: ") + std::string(b); }
    }
    bool set = writer ? bool(w.error()) : bool(r.error());
    bool good = writer ? bool(w) : bool(r);
    sym_check(set == !want.empty() && good == want.empty(), "error exactly once one was raised");
    if (set) { sym_check(same(text(writer ? w.error() : r.error()), want), "not the first error"); sym_cover("set"); } else sym_cover("empty");
}

namespace {
struct Obs { Token::Type type; std::string text; bool error; };
Obs observe(Reader& r, const Token& t)
{
    Obs o = { t.type(), "", bool(r.error()) };
    if (!o.error && (o.type == Token::String || o.type == Token::Int || o.type == Token::Float || o.type == Token::Bool)) o.text = t.print();
    return o;
}
void equal(const Obs& a, const Obs& b, const char* msg) { sym_check(a.type == b.type && a.error == b.error && same(a.text, b.text), msg); }

enum { READ, EXPECT, SKIP };
const Token::Type kinds[] = { Token::ObjectStart, Token::ObjectEnd, Token::ArrayStart, Token::ArrayEnd, Token::Separator, Token::KeySeparator, Token::String, Token::Int, Token::Float, Token::Bool, Token::Null, Token::EOS };

// the same operations on the same text with and without peeking first
void peeking(const std::string& text, unsigned opts, size_t steps, bool ops)
{
    std::istringstream sa(text), sb(text);
    Reader a(sa, Reader::Options(opts)), b(sb, Reader::Options(opts));
    for (size_t i = 0; i < steps; ++i) {
        unsigned op = ops ? sym_choose(3, "op") : unsigned(READ);
        unsigned peeks = sym_choose(3, "peeks");
        Obs seen[2];
        for (unsigned k = 0; k < peeks; ++k) seen[k] = observe(b, b.peekToken());
        if (peeks == 2) equal(seen[0], seen[1], "two peeks differ");
        if (op == SKIP) { json::skip(a); json::skip(b); sym_cover("skip"); }
        else if (op == READ) {
            Obs x = observe(a, a.nextToken()), y = observe(b, b.nextToken());
            equal(x, y, "token read after peeking differs");
            if (peeks) { equal(seen[0], y, "token peeked differs from the one read"); sym_cover("peeked"); }
        }
        else {
            Token::Type want = i == 0 ? Token::ArrayStart : Token::Int;
            Token x = a.expectToken(want);
            Obs ox = observe(a, x);
            Obs oy = observe(b, b.expectToken(want));
            equal(ox, oy, "token expected after peeking differs");
        }
        sym_check(bool(a.error()) == bool(b.error()), "error depends on peeking");
        if (a.error()) {
            sym_check(same(::text(a.error()), ::text(b.error())), "error text depends on peeking");
            sym_cover("error");
            return;
        }
        sym_check(a.pos() == b.pos() && a.line() == b.line(), "position after reading depends on peeking");
        if (op == READ && a.ok() != b.ok()) sym_fail("state depends on peeking");
    }
    sym_cover("done");
}
} // namespace

extern "C" void prop_peek_bytes()
{
    sym_expect("peeked"); sym_expect("error"); sym_expect("done");
    unsigned char b[B_N];
    size_t n = sym_choose(B_N + 1, "len");
    sym_bytes(b, n, "text");
    peeking(std::string((char*)b, n), Reader::Default | Reader::AllowComments, 2, false);
}
extern "C" void prop_peek_lexemes()
{
    sym_expect("peeked"); sym_expect("error"); sym_expect("done"); sym_expect("skip");
    static const char* const parts[] = { " ", "\n", "[", "]", "{}", ",", ":", "12", "1.5", "\"a\"", "\"bc\"", "true", "false", "null", "%", "//c\n" };
    std::string text;
    size_t n = sym_choose(B_L + 1, "len");
    for (size_t i = 0; i < n; ++i) text += parts[sym_choose(16, "part")];
    peeking(text, Reader::Default, B_L, true);
}
extern "C" void prop_expect()
{
    sym_expect("match"); sym_expect("mismatch");
    static const char* const texts[] = { "{", "}", "[", "]", ",", ":", "\"x\"", "7", "7.5", "true", "null", "" };
    unsigned have = sym_choose(12, "token"), want = sym_choose(12, "expected");
    unsigned peeks = sym_choose(2, "peek");
    std::istringstream is(std::string(" ") + texts[have] + " ]");
    if (have == 11) is.str("");
    Reader r(is);
    if (peeks) r.peekToken();
    bool direct = sym_choose(2, "assert");
    if (direct) {
        Token t = r.nextToken();
        bool ok = r.assertToken(t, kinds[want]);
        sym_check(ok == (have == want), "assertion of a token");
    }
    else {
        Token t = r.expectToken(kinds[want]);
        if (have == want) sym_check(t.type() == kinds[want], "expected token");
        else sym_check(t.type() != kinds[want] || want == 11, "unexpected token passed for the expected one");
        if (have == want && have == 6) sym_check(same(t.asString(), "x"), "content of the expected text");
        if (have == want && have == 7) sym_check(t.asInt() == 7, "content of the expected number");
        if (have == want && have == 9) sym_check(t.asBool(), "content of the expected boolean");
    }
    sym_check(bool(r.error()) == (have != want), "mismatch reported exactly when there is one");
    if (have == want) {
        if (have < 11) { Token n = r.nextToken(); sym_check(n.type() == Token::ArrayEnd, "expecting consumed more than one token"); }
        sym_cover("match");
    }
    else sym_cover("mismatch");
}
