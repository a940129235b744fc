// Numbers written and read back.
// @check J07 libs=core,prims,std,json entries=prop_int_roundtrip,prop_int_text,prop_int_fields quick=-DB_NT=20 thorough=-DB_NT=21,-DB_FREE=1
// @bounds J07 every 64 bit integer written and read back; every text of an optional minus sign and up to NT digits (the middle ones being those of the limit from 19 digits on; thorough: all free)
// @check J08 libs=core,prims,std,json entries=prop_float_print,prop_float_read,prop_float_kind,prop_float_exact quick=-DB_NK=4 thorough=-DB_NK=6
// @bounds J08 every double as to its class (nan, infinite, finite), every 16 bit integral double and a table of 24 doubles written and read back; every number-like text of up to NK characters as to acceptance and kind; texts of up to 3 free digits, an optional decimal point and an exponent in -3..3 as to value; a table of 20 texts around the limits of double
#include "types.h"
#include "json_ref.h"
#include "utils/json.h"
#include "types/std/map.h"
#include "types/std/vector.h"
#include <sstream>
#include <cstring>
#include <limits>
#ifndef B_NT
#define B_NT 20
#endif
#ifndef B_NK
#define B_NK 4
#endif
using namespace reflect;
using namespace reflect::json;

namespace jd { struct Num { int64_t i; double d; Num() : i(7), d(7) {} }; }
reflectType(jd::Num) { reflectPlumbing(); reflectField(i); reflectField(d); }

namespace {
bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

// decimal text -> value, false when it doesn't fit
bool refInt(const std::string& s, bool neg, int64_t& out)
{
    size_t i = 0;
    if (neg) i++;
    uint64_t lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull, v = 0;
    if (!sym_undigits(s.data() + i, s.size() - i, &v))
        for (size_t k = 0; i < s.size(); ++i, ++k) {
            unsigned d = (unsigned char)s[i] - '0';
            if (k >= 18 && (v > lim / 10 || (v == lim / 10 && d > lim % 10))) return false;
            v = v * 10 + d;
        }
    if (v > lim) return false;
    out = (int64_t)(neg ? 0 - v : v);
    return true;
}
} // namespace

extern "C" void prop_int_roundtrip()
{
    sym_expect("negative"); sym_expect("positive");
    preload();
    int64_t v = sym_i64("value");
    int how = sym_choose(3, "how");
    std::string doc;
    if (how == 0) {
        std::ostringstream os;
        Writer w(os);
        json::printInt(w, v);
        sym_check(!w.error(), "integer could not be written");
        doc = os.str();
    }
    else {
        auto r = json::print(v);
        sym_check(!r.second, "integer could not be written");
        doc = r.first;
    }
    sym_check(doc.size() >= 1 && doc.size() <= 20, "length of a written integer");
    if (v < 0) { sym_cover("negative"); sym_check(doc[0] == '-', "sign of a written integer"); }
    else { sym_cover("positive"); sym_check(doc[0] != '-', "sign of a written integer"); }
    int64_t ref = 0;
    sym_check(refInt(doc, v < 0, ref) && ref == v, "another integer was written");
    int64_t back = 5;
    if (how == 1) {
        sym_check(!json::parse(doc, back), "written integer could not be read");
    }
    else {
        std::istringstream is(doc);
        Reader r(is);
        back = json::parseInt(r);
        sym_check(!r.error(), "written integer could not be read");
    }
    sym_check(back == v, "integer changed by writing and reading it");
}

extern "C" void prop_int_text()
{
    sym_expect("fits"); sym_expect("out of range");
    preload();
    bool neg = sym_choose(2, "sign");
    int n = 1 + sym_choose(B_NT, "digits");
    char buf[B_NT + 2];
    if (neg) buf[0] = '-';
    sym_bytes(buf + neg, n, "text");
    for (int i = 0; i < n; ++i) sym_assume((buf[neg + i] >= '0') & (buf[neg + i] <= '9'));
    // leading zeros are covered by the shorter texts
    if (n > 4) sym_assume(buf[neg] != '0');
#ifndef B_FREE
    // around the limits all but a few digits are those of the limit
    if (n >= 19) for (int i = 0; i < n; ++i) if (i != 0 && i != 9 && i < n - 2) sym_assume(buf[neg + i] == "92233720368547758070000"[i]);
#endif
    std::string doc(buf, n + neg);
    int64_t ref = 0, got = 12345;
    bool fits = refInt(doc, neg, ref);
    json::Error err;
    bool raised = raises([&] { err = json::parse(doc, got); });
    sym_check(!raised, "reading an integer raised");
    if (fits) {
        sym_cover("fits");
        sym_check(!err, "integer text refused");
        sym_check(got == ref, "integer text read as another value");
    }
    else {
        sym_cover("out of range");
        sym_check(bool(err), "integer out of range accepted");
    }
}

extern "C" void prop_int_fields()
{
    preload();
    jd::Num o, p;
    o.i = sym_i64("i");
    int m = sym_choose(3, "d");
    o.d = m == 0 ? 0.5 : m == 1 ? -3e-7 : 1e100;
    auto r = json::print(o);
    sym_check(!r.second, "object of numbers could not be written");
    sym_check(!json::parse(r.first, p), "object of numbers could not be read");
    sym_check(p.i == o.i && p.d == o.d, "numbers changed by writing and reading them");
}

namespace {
const double table[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.5, -2.25, 1e10, 123456789012.0, 1e11, 1e12, 1e15, 1e22, 1e100, -1e100, 1e-5, 1e-4, 1e-100, 1.7e308, 2.5e-308, 3.14159265358, 100, 1e300 };
}
extern "C" void prop_float_print()
{
    sym_expect("finite"); sym_expect("not finite"); sym_expect("integral");
    int how = sym_choose(3, "how");
    double v;
    if (how == 0) {
        v = sym_f64("value");
        sym_assume((bitsOf(v) & 0x7ff0000000000000ull) == 0x7ff0000000000000ull);
    }
    else if (how == 1) v = (double)(int16_t)sym_u(16, "integral");
    else { unsigned i = sym_choose(sizeof table / sizeof *table, "table"); v = table[i]; }

    int field = sym_choose(2, "field");
    jd::Num o;
    std::pair<std::string, json::Error> r;
    if (field) { o.d = v; r = json::print(o); }
    else r = json::print(v);

    if (how == 0) {
        sym_check(bool(r.second), "number that isn't finite written without an error");
        sym_cover("not finite");
        return;
    }
    sym_check(!r.second, "finite number could not be written");
    double back = 77;
    if (field) {
        jd::Num p;
        sym_check(!json::parse(r.first, p), "written number could not be read");
        back = p.d;
    }
    else {
        Ref ref = { (const unsigned char*)r.first.data(), r.first.size(), 0, false, true, true, "", false };
        RT t = ref.next();
        sym_check((t == R_FLT || t == R_INT) && ref.i == r.first.size(), "number written as invalid JSON");
        sym_check(!json::parse(r.first, back), "written number could not be read");
    }
    sym_check(back == v, "number of at most 12 digits changed by writing and reading it");
    if (how == 1) sym_cover("integral"); else sym_cover("finite");
}

// acceptance and kind of any number like text
extern "C" void prop_float_kind()
{
    sym_expect("int"); sym_expect("float"); sym_expect("malformed");
    preload();
    unsigned char buf[B_NK];
    size_t n = 1 + sym_choose(B_NK, "len");
    sym_bytes(buf, n, "num");
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = buf[i];
        sym_assume(bool((c >= '0') & (c <= '9')) | (c == '-') | (c == '+') | (c == '.') | (c == 'e') | (c == 'E'));
    }
    std::string doc((const char*)buf, n);
    Ref ref = { buf, n, 0, false, true, true, "", false };
    RT want = ref.next();
    int target = sym_choose(2, "target");
    if (target) {
        double d = 7;
        json::Error err = json::parse(doc, d);
        sym_check(bool(err) == (want != R_INT && want != R_FLT), want == R_ERR ? "malformed number accepted" : "number refused where a float is expected");
    }
    else {
        int64_t i = 7;
        json::Error err = json::parse(doc, i);
        sym_check(bool(err) == (want != R_INT), want == R_INT ? "integer refused" : "only integers are accepted where an integer is expected");
        if (err && want == R_FLT) sym_cover("float");
    }
    if (want == R_INT) sym_cover("int");
    if (want == R_ERR) sym_cover("malformed");
}

// values of short texts
extern "C" void prop_float_exact()
{
    preload();
    unsigned char d[3];
    sym_bytes(d, 3, "digits");
    for (int i = 0; i < 3; ++i) sym_assume((d[i] >= '0') & (d[i] <= '9'));
    int neg = sym_choose(2, "sign"), point = sym_choose(3, "point");
    int ex = (int)sym_choose(7, "exp") - 3, upper = sym_choose(2, "upper");
    std::string doc;
    if (neg) doc += '-';
    doc += char(d[0]);
    if (point == 1) doc += '.';
    doc += char(d[1]);
    if (point == 2) doc += '.';
    doc += char(d[2]);
    if (ex != -3) { doc += upper ? 'E' : 'e'; if (ex < 0) doc += '-'; else if (upper) doc += '+'; doc += char('0' + (ex < 0 ? -ex : ex)); }
    int dec = point == 1 ? 2 : point == 2 ? 1 : 0;
    int e10 = (ex == -3 ? 0 : ex) - dec;
    static const double p10[] = { 1, 10, 100, 1000, 10000, 100000 };
    unsigned long m = 0;
    for (int i = 0; i < 3; ++i) m = m * 10 + (d[i] - '0');
    double want = (double)m;
    if (e10 > 0) want = want * p10[e10]; else if (e10 < 0) want = want / p10[-e10];
    if (neg) want = -want;
    double got = 99;
    int how = sym_choose(2, "how");
    if (how) sym_check(!json::parse(doc, got), "number refused");
    else {
        std::istringstream is(doc);
        Reader r(is);
        got = parseFloat(r);
        sym_check(!r.error(), "number refused");
    }
    sym_check(bitsOf(got) == bitsOf(want), "number text read as another value");
}

namespace {
struct Case { const char* text; int kind; double value; }; // kind: 0 ok, 1 out of range
const Case cases[] = {
    { "1.7976931348623157e308", 0, std::numeric_limits<double>::max() }, { "-1.7976931348623157e308", 0, -std::numeric_limits<double>::max() },
    { "1.7976931348623159e308", 1, 0 }, { "1e309", 1, 0 }, { "-1e309", 1, 0 }, { "1e99999", 1, 0 }, { "-2.5E+400", 1, 0 },
    { "2.2250738585072014e-308", 0, 2.2250738585072014e-308 }, { "5e-324", 0, 5e-324 }, { "1e-400", 0, 0.0 }, { "-1e-400", 0, -0.0 },
    { "0.1", 0, 0.1 }, { "123456789.123456789", 0, 123456789.123456789 }, { "9007199254740993", 0, 9007199254740992.0 },
    { "18446744073709551616", 0, 18446744073709551616.0 }, { "-9223372036854775809", 0, -9223372036854775808.0 }, { "0.30000000000000004", 0, 0.30000000000000004 },
    { "3.4028236e38", 0, 3.4028236e38 }, { "1e39", 0, 1e39 }, { "16777217", 0, 16777217.0 },
};
}
extern "C" void prop_float_read()
{
    sym_expect("out of range"); sym_expect("exact");
    preload();
    unsigned i = sym_choose(sizeof cases / sizeof *cases, "case");
    const Case& c = cases[i];
    double got = 99;
    json::Error err;
    bool raised = raises([&] { err = json::parse(std::string(c.text), got); });
    sym_check(!raised, "reading a number raised");
    if (c.kind) { sym_check(bool(err), "number out of range accepted"); sym_cover("out of range"); return; }
    sym_check(!err, "number in range refused");
    sym_check(bitsOf(got) == bitsOf(c.value), "number text read as another value");
    sym_cover("exact");
}
