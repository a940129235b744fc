// Errors and their messages.
// @check C21 libs=core,prims entries=prop_format,prop_long,prop_raise,prop_status quick=-DB_N=40 thorough=-DB_N=200
// @bounds C21 messages of every length from 0 to 12, 1024 - B_N to 1024 + B_N and 2048 - B_N to 2048 + B_N, and of 10 lengths around powers of two up to 65537, with arbitrary non zero bytes at their ends and around the buffer boundary; texts given as C string, mutable, const or temporary std::string, integers
#include "types.h"
using namespace reflect;
#ifndef B_N
#define B_N 4
#endif

namespace {
char text[65536 + 16];
const unsigned big[] = { 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537 };
// a text of n characters whose interesting positions are arbitrary
void fill(unsigned n)
{
    char c[12]; sym_bytes(c, 12, "chars");
    for (int i = 0; i < 12; ++i) sym_assume(c[i] != 0);
    for (unsigned i = 0; i < n; ++i) text[i] = char('a' + i % 26);
    const unsigned at[12] = { 0, 1, 1020, 1021, 1022, 1023, 1024, 1025, n > 60000 ? n - 3 : 2047, n > 4000 ? n / 2 : 2048, n - 1, n - 2 };
    for (int i = 0; i < 12; ++i) if (at[i] < n) text[at[i]] = c[i];
    text[n] = 0;
}
unsigned length()
{
    unsigned k = sym_choose(4, "range");
    if (k == 3) return big[sym_choose(sizeof(big) / sizeof(big[0]), "length")];
    if (k == 0) return sym_choose(13, "length");
    return (k == 1 ? 1024 : 2048) - B_N + sym_choose(2 * B_N + 1, "length");
}
bool same(const char* s, const std::string& prefix, const char* t, unsigned n, const char* suffix)
{
    unsigned i = 0;
    for (char c : prefix) if (s[i++] != c) return false;
    bool eq = true;                                       // one condition for the solver
    for (unsigned k = 0; k < n; ++k, ++i) eq = eq & (s[i] == t[k]);
    for (; *suffix; ++suffix, ++i) if (s[i] != *suffix) return false;
    return eq & (s[i] == 0);
}
template<typename Fn> void expect(const Fn& fn, const std::string& prefix, unsigned n, const char* suffix)
{
    bool raised = false;
    try { fn(); }
    catch (const Error& e) {
        raised = true;
        sym_check(bool(e), "an error tests true");
        sym_check(same(e.what(), prefix, text, n, suffix), "the whole message");
    }
    sym_check(raised, "the error is raised");
}
}
extern "C" void prop_format()
{
    unsigned n = length(), extra = sym_choose(3, "format");
    fill(n);
    std::string s(text, n); const std::string& cs = s;
    unsigned how = sym_choose(4, "given as");
    const char* fmt = extra == 0 ? "%s" : extra == 1 ? "<%s> is" : "%s%s";
    auto format = [&]() -> std::string {
        if (extra == 2) return how == 0 ? errorFormat(fmt, text, "") : how == 1 ? errorFormat(fmt, s, std::string()) : how == 2 ? errorFormat(fmt, cs, "") : errorFormat(fmt, std::string(s), "");
        return how == 0 ? errorFormat(fmt, text) : how == 1 ? errorFormat(fmt, s) : how == 2 ? errorFormat(fmt, cs) : errorFormat(fmt, std::string(s));
    };
    std::string r = format();
    sym_check(r.size() == n + (extra == 1 ? 5 : 0), "length of the message");
    sym_check(same(r.c_str(), extra == 1 ? "<" : "", text, n, extra == 1 ? "> is" : ""), "content of the message");
    sym_check(s.size() == n, "arguments are unchanged");
}
extern "C" void prop_long()
{
    unsigned n = length();
    fill(n);
    unsigned line = sym_choose(3, "line"); line = line == 0 ? 0 : line == 1 ? 7 : 123456;
    std::string prefix = std::string("dir/file.cpp:") + (line == 0 ? "0" : line == 7 ? "7" : "123456") + ": ";
    unsigned how = sym_choose(3, "how");
    if (how == 0) expect([&] { error("dir/file.cpp", line, "%s", text); }, prefix, n, "");
    else if (how == 1) expect([&] { error("dir/file.cpp", line, "%s: %d of %lu", std::string(text, n), -12, (unsigned long) 1234567890123ul); }, prefix, n, ": -12 of 1234567890123");
    else expect([&] { verror(true, "dir/file.cpp", line, std::string(text, n)); }, prefix, n, "");
}
extern "C" void prop_raise()
{
    unsigned n = length();
    fill(n);
    std::string s(text, n);
    int line = 0;
    std::string file = __FILE__, msg; bool raised = false;
    try { line = __LINE__; reflectError("no <%s>", s); } catch (const std::logic_error& e) { raised = true; msg = e.what(); }
    std::string num; for (int l = line; l; l /= 10) num.insert(num.begin(), char('0' + l % 10));
    sym_check(raised && same(msg.c_str(), file + ":" + num + ": no <", text, n, ">"), "origin and message of an error");
    // the messages of the library carry their names whole
    std::string m2;
    if (n > 0 && n < 1100) {
        try { type<int>()->function("fn" + std::string(n, 'x')); } catch (const Error& e) { m2 = e.what(); }
        sym_check(m2.find("fn" + std::string(n, 'x')) != std::string::npos, "the message names what is missing");
    }
}
extern "C" void prop_status()
{
    Error none, some("x"), empty("");
    sym_check(!none && some && empty, "status of an error");
    Error c(some), d; d = c;
    sym_check(c && d && std::string(d.what()) == "x" && std::string(none.what()).empty(), "copies of an error");
    d = none;
    sym_check(!d, "assigned error");
}
