// Documents as sequences of tokens, each chosen when the parser asks for it, against a reference
// grammar.
// @check J03 libs=core,prims,std,json entries=prop_skip,prop_value,prop_generic,prop_list,prop_map,prop_object quick=-DB_N=7,-DB_NO=7 thorough=-DB_N=9,-DB_NO=9
// @bounds J03 every sequence of up to N tokens of every kind (punctuation, two texts, integer, float, true, false, null, malformed, end of input), into: skip, an untyped value, the generic callbacks, a list of lists of integers, a map of lists, an object with nested object, list and map fields (NO tokens)
#include "types.h"
#include "utils/json.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include <cstring>
#include <streambuf>
#include <istream>
#ifndef B_N
#define B_N 5
#define B_NO 5
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd {
struct Inner { int64_t n; std::string s; Inner() : n(0) {} };
struct Outer { int64_t a; Inner b; std::vector<int64_t> c; std::map<std::string, bool> d; Outer() : a(0) {} };
}
reflectType(jd::Inner) { reflectPlumbing(); reflectField(n); reflectField(s); }
reflectType(jd::Outer) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(c); reflectField(d); }
typedef std::vector<std::vector<int64_t>> ListT;
typedef std::map<std::string, std::vector<int64_t>> MapT;
reflectTypeLoader(ListT)
reflectTypeLoader(MapT)

namespace {
enum Tok { OS, OE, AS, AE, SEP, COL, TA, TB, INT, FLT, TRUE, FALSE, NUL, BAD, END, NTOK };
const char* const texts[] = { " {", " }", " [", " ]", " ,", " :", " \"a\"", " \"b\"", " 1", " 1.5", " true", " false", " null", " %" };

struct Tokens : std::streambuf
{
    std::vector<Tok> seq; size_t max; std::vector<Tok> alpha;
    explicit Tokens(size_t m) : max(m) { for (int i = 0; i < NTOK; ++i) alpha.push_back(Tok(i)); }
    bool ended() const { return !seq.empty() && seq.back() == END; }
    int underflow()
    {
        if (gptr() < egptr()) return (unsigned char)*gptr();
        if (ended()) return traits_type::eof();
        unsigned k = END;
        if (seq.size() < max) { unsigned c = sym_choose(alpha.size(), "token"); k = alpha[c]; }
        seq.push_back(Tok(k));
        if (k == END) return traits_type::eof();
        char* s = const_cast<char*>(texts[k]);
        setg(s, s, s + strlen(s));
        return (unsigned char)*s;
    }
};

struct Malformed {};
struct Short {};

// reference: what each target accepts
struct Doc
{
    const std::vector<Tok>& s; size_t i; bool ok;
    explicit Doc(const std::vector<Tok>& s) : s(s), i(0), ok(true) {}
    Tok peek() { if (i >= s.size()) { sym_fail("stopped before the end of the document"); return END; } return s[i]; }
    Tok next() { Tok t = peek(); i++; return t; }
    bool need(bool c) { if (!c) ok = false; return ok; }
    bool text(Tok t) { return t == TA || t == TB; }

    template<typename F> void object(bool null, F fn)
    {
        Tok t = next();
        if (null && t == NUL) return;
        if (!need(t == OS)) return;
        if (peek() == OE) { i++; return; }
        for (;;) {
            Tok k = next();
            if (!need(text(k))) return;
            if (!need(next() == COL)) return;
            fn(k);
            if (!ok) return;
            t = next();
            if (t == OE) return;
            if (!need(t == SEP)) return;
        }
    }
    template<typename F> void array(bool null, F fn)
    {
        Tok t = next();
        if (null && t == NUL) return;
        if (!need(t == AS)) return;
        if (peek() == AE) { i++; return; }
        for (;;) {
            fn();
            if (!ok) return;
            t = next();
            if (t == AE) return;
            if (!need(t == SEP)) return;
        }
    }
    void any()
    {
        Tok t = peek();
        if (t == OS) object(false, [&] (Tok) { any(); });
        else if (t == AS) array(false, [&] { any(); });
        else { i++; need(text(t) || t == INT || t == FLT || t == TRUE || t == FALSE || t == NUL); }
    }
    void integer() { need(next() == INT); }
    void string() { need(text(next())); }
    void boolean() { Tok t = next(); need(t == TRUE || t == FALSE); }
    void ints() { array(true, [&] { integer(); }); }
};

template<typename P, typename R>
void run(size_t n, P parseFn, R refFn, std::initializer_list<Tok> drop = {})
{
    Tokens buf(n);
    for (Tok d : drop) for (size_t i = 0; i < buf.alpha.size(); ++i) if (buf.alpha[i] == d) { buf.alpha.erase(buf.alpha.begin() + i); break; }
    std::istream stream(&buf);
    Reader reader(stream);
    bool threw = raises([&] { parseFn(reader); });
    sym_check(!threw, "parsing raised instead of reporting through the reader");

    Doc ref(buf.seq);
    refFn(ref);
    if (ref.ok) {
        sym_cover("accepted");
        sym_check(!reader.error(), "well formed document reported as an error");
        // a number may look one token further, nothing else does
        sym_check(ref.i == buf.seq.size() || (ref.i + 1 == buf.seq.size() && (buf.seq[ref.i - 1] == INT || buf.seq[ref.i - 1] == FLT)), "read past the end of the document");
        if (reader.ok()) {
            Token t = reader.nextToken();
            Tok after = ref.i < buf.seq.size() ? buf.seq[ref.i] : END;
            static const Token::Type want[] = { Token::ObjectStart, Token::ObjectEnd, Token::ArrayStart, Token::ArrayEnd, Token::Separator, Token::KeySeparator, Token::String, Token::String, Token::Int, Token::Float, Token::Bool, Token::Bool, Token::Null, Token::EOS, Token::EOS };
            sym_check(t.type() == want[after], "what follows the document was consumed");
        }
        if (buf.seq[0] == OS) sym_cover("object");
        if (buf.seq[0] == AS) sym_cover("array");
    }
    else {
        sym_cover("rejected");
        sym_check(bool(reader.error()), "malformed or truncated document not reported");
        sym_check(!reader.ok(), "reader in error tests true");
    }
}
} // namespace

extern "C" void prop_skip()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("object"); sym_expect("array");
    run(B_N, [] (Reader& r) { json::skip(r); }, [] (Doc& d) { d.any(); }, { TB, FALSE, FLT });
}
extern "C" void prop_value()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("object"); sym_expect("array");
    preload();
    run(B_N, [] (Reader& r) { Value v; json::parse(r, v); }, [] (Doc& d) { d.any(); }, { TB, FALSE, FLT });
}
extern "C" void prop_generic()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("object"); sym_expect("array");
    bool obj = sym_choose(2, "kind");
    run(B_N, [&] (Reader& r) {
        if (obj) parseObject(r, [&] (const std::string&) { parseArray(r, [&] (size_t) { parseBool(r); }); });
        else parseArray(r, [&] (size_t) { parseObject(r, [&] (const std::string&) { parseInt(r); }); });
    }, [&] (Doc& d) {
        if (obj) d.object(true, [&] (Tok) { d.array(true, [&] { d.boolean(); }); });
        else d.array(true, [&] { d.object(true, [&] (Tok) { d.integer(); }); });
    }, { TB, FLT });
}
extern "C" void prop_list()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("array");
    preload();
    ListT list;
    run(B_NO, [&] (Reader& r) { json::parse(r, list); }, [] (Doc& d) { d.array(true, [&] { d.ints(); }); }, { TB, FALSE, FLT });
}
extern "C" void prop_map()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("object");
    preload();
    MapT map;
    run(B_NO, [&] (Reader& r) { json::parse(r, map); }, [] (Doc& d) { d.object(true, [&] (Tok) { d.ints(); }); }, { FALSE, FLT });
}
extern "C" void prop_object()
{
    sym_expect("accepted"); sym_expect("rejected"); sym_expect("object");
    preload();
    jd::Outer o;
    int field = sym_choose(4, "field");
    static const char* const names[] = { "a", "b", "c", "d" };
    // the object starts at one of the fields of the outer object
    std::string key = names[field];
    Value v = cast<Value>(o);
    Value f = v.field(key);
    run(B_NO, [&] (Reader& r) { json::parse(r, f); }, [&] (Doc& d) {
        switch (field) {
        case 0: d.integer(); break;
        case 1: d.object(true, [&] (Tok) { d.any(); }); break;   // a and b are unknown keys
        case 2: d.ints(); break;
        case 3: d.object(true, [&] (Tok) { d.boolean(); }); break;
        }
    }, { FLT });
}
