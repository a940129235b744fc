// Text written as JSON strings and read back, UTF-8 validation and unicode escapes.
// @check J04 libs=core,prims,std,json entries=prop_roundtrip,prop_roundtrip_wide quick=-DB_N=3 thorough=-DB_N=6
// @bounds J04 every valid UTF-8 text of up to N bytes x 4 writer options x 4 reader options; every multi byte character within other text
// @check J05 libs=core,prims,std,json entries=prop_read_invalid,prop_write_invalid quick=-DB_N=4 thorough=-DB_N=6
// @bounds J05 every byte string of up to N bytes, read and written with and without validation and escaping
// @check J06 libs=core,prims,std,json entries=prop_escape,prop_escape_pair,prop_escape_kept quick= thorough=-DB_LONG=1
// @bounds J06 a backslash followed by any byte; \u followed by any 4 bytes; any pair of 4 hex digit escapes (the first one upper case starting with D and the second one lower case starting with d, e or 0; thorough: any) followed by any byte; with and without unescaping and validation
#include "sym.h"
#include "json_ref.h"
#include "utils/json.h"
#include <sstream>
#include <cstring>
#ifndef B_N
#define B_N 4
#endif
using namespace reflect;
using namespace reflect::json;

namespace {
Ref mkref(const std::string& s, int opts)
{
    Ref r = { (const unsigned char*)s.data(), s.size(), 0, bool(opts & Reader::AllowComments), bool(opts & Reader::UnescapeUnicode), bool(opts & Reader::ValidateUnicode), "", false };
    return r;
}
bool validText(const unsigned char* p, size_t n)
{
    Ref r = { p, n, 0, false, true, true, "", false };
    while (r.i < n) { if (p[r.i] < 0x80) r.i++; else if (!r.utf8()) return false; }
    return true;
}
bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }

// one string token followed by the end of the input; false on error
bool readAll(const std::string& doc, int opts, std::string& out)
{
    std::istringstream ss(doc);
    Reader reader(ss, Reader::Options(opts));
    Token t = reader.nextToken();
    if (reader.error()) return false;
    sym_check(t.type() == Token::String, "not read as a text");
    out = t.asString();
    Token e = reader.nextToken();
    sym_check(e.type() == Token::EOS && !reader.error(), "something is left after the text");
    return true;
}
bool writeAll(const std::string& text, int opts, std::string& doc)
{
    std::ostringstream os;
    Writer writer(os, Writer::Options(opts));
    formatString(writer, text);
    doc = os.str();
    sym_check(bool(writer) == !writer.error(), "writer state differs from its error");
    return !writer.error();
}

void roundtrip(const std::string& text)
{
    int w = sym_choose(4, "wopts"), r = sym_choose(4, "ropts");
    int wo = (w & 1 ? Writer::EscapeUnicode : 0) | (w & 2 ? Writer::ValidateUnicode : 0);
    int ro = (r & 1 ? Reader::UnescapeUnicode : 0) | (r & 2 ? Reader::ValidateUnicode : 0);
    std::string doc;
    sym_check(writeAll(text, wo, doc), "valid text could not be written");

    // the written form denotes the text
    Ref ref = mkref(doc, Reader::UnescapeUnicode | Reader::ValidateUnicode);
    sym_check(ref.next() == R_STR && ref.i == doc.size(), "not written as a single quoted text");
    sym_check(same(ref.text, text), "the written form denotes another text");
    if (wo & Writer::EscapeUnicode) {
        for (size_t i = 0; i < doc.size(); ++i) sym_check((unsigned char)doc[i] < 0x80, "escaped text is not ascii");
        sym_cover("escaped");
    }

    std::string back;
    if ((wo & Writer::EscapeUnicode) && !(ro & Reader::UnescapeUnicode)) {
        // escapes are kept as they are
        sym_check(readAll(doc, ro, back), "written text could not be read");
        Ref kept = mkref(doc, ro);
        sym_check(kept.next() == R_STR && same(kept.text, back), "escapes not kept as they are");
        return;
    }
    sym_check(readAll(doc, ro, back), "written text could not be read back");
    sym_check(same(back, text), "text changed by writing and reading it");
    sym_cover("roundtrip");
}
} // namespace

extern "C" void prop_roundtrip()
{
    sym_expect("roundtrip"); sym_expect("escaped");
    unsigned char buf[B_N + 1];
    size_t n = sym_choose(B_N + 1, "len");
    sym_bytes(buf, n, "text");
    sym_assume(validText(buf, n));
    roundtrip(std::string((const char*)buf, n));
}

// a multi byte character in the middle of other text, with the default options
extern "C" void prop_roundtrip_wide()
{
    sym_expect("roundtrip"); sym_expect("escaped");
    static const unsigned char heads[] = { 0xC2, 0xE0, 0xF0 };
    unsigned char buf[16] = { 'a', 0xC3, 0xA9 };
    size_t n = 3;
    int len = 2 + sym_choose(3, "bytes");
    sym_bytes(buf + n, len, "char");
    unsigned lo = heads[len - 2], hi = len == 2 ? 0xDF : len == 3 ? 0xEF : 0xF4;
    sym_assume((buf[n] >= lo) & (buf[n] <= hi));
    n += len;
    buf[n++] = 0xE2; buf[n++] = 0x82; buf[n++] = 0xAC; buf[n++] = '"';
    sym_assume(validText(buf, n));
    std::string text((const char*)buf, n);
    int opts = sym_choose(2, "opts");
    int wo = opts ? Writer::Default : Writer::ValidateUnicode;
    std::string doc, back;
    sym_check(writeAll(text, wo, doc), "valid text could not be written");
    if (opts) {
        for (size_t i = 0; i < doc.size(); ++i) sym_check((unsigned char)doc[i] < 0x80, "escaped text is not ascii");
        sym_cover("escaped");
    }
    sym_check(readAll(doc, Reader::Default, back), "written text could not be read back");
    sym_check(same(back, text), "text changed by writing and reading it");
    sym_cover("roundtrip");
}

extern "C" void prop_read_invalid()
{
    sym_expect("valid"); sym_expect("invalid"); sym_expect("unchecked");
    unsigned char buf[B_N + 2];
    size_t n = sym_choose(B_N + 1, "len");
    buf[0] = '"';
    sym_bytes(buf + 1, n, "text");
    buf[n + 1] = '"';
    for (size_t i = 1; i <= n; ++i) sym_assume((buf[i] != '"') & (buf[i] != '\\') & (buf[i] != '\n'));
    bool validate = sym_choose(2, "validate");
    std::string out, doc((const char*)buf, n + 2);
    bool ok = readAll(doc, Reader::UnescapeUnicode | (validate ? Reader::ValidateUnicode : 0), out);
    if (!validate) {
        sym_check(ok && same(out, doc.substr(1, n)), "text changed without validation");
        sym_cover("unchecked");
        return;
    }
    bool valid = validText(buf + 1, n);
    sym_check(ok == valid, valid ? "valid UTF-8 refused when reading" : "invalid UTF-8 read without an error");
    if (ok) sym_check(same(out, doc.substr(1, n)), "valid text changed when reading");
    if (valid) sym_cover("valid"); else sym_cover("invalid");
}

extern "C" void prop_write_invalid()
{
    sym_expect("valid"); sym_expect("invalid"); sym_expect("unchecked");
    unsigned char buf[B_N + 1];
    size_t n = sym_choose(B_N + 1, "len");
    sym_bytes(buf, n, "text");
    bool validate = sym_choose(2, "validate"), escape = sym_choose(2, "escape");
    std::string doc, text((const char*)buf, n);
    bool ok = writeAll(text, (validate ? Writer::ValidateUnicode : 0) | (escape ? Writer::EscapeUnicode : 0), doc);
    bool valid = validText(buf, n);
    if (!validate) {
        if (valid || !escape) {
            sym_check(ok, "text refused without validation");
            Ref ref = mkref(doc, Reader::UnescapeUnicode);
            sym_check(ref.next() == R_STR && ref.i == doc.size() && same(ref.text, text), "text changed without validation");
        }
        sym_cover("unchecked");
        return;
    }
    sym_check(ok == valid, valid ? "valid UTF-8 refused when writing" : "invalid UTF-8 written without an error");
    if (valid) sym_cover("valid"); else sym_cover("invalid");
}

namespace {
void against(const std::string& doc, int opts)
{
    Ref ref = mkref(doc, opts);
    RT want = ref.next();
    std::istringstream ss(doc);
    Reader reader(ss, Reader::Options(opts));
    Token t = reader.nextToken();
    if (want == R_ERR) {
        sym_check(bool(reader.error()), "malformed escape accepted");
        sym_cover("error");
        return;
    }
    sym_check(!reader.error() && t.type() == Token::String, "well formed escape refused");
    std::string got = t.asString();
    sym_check(same(got, ref.text), "escape decoded to another text");
    sym_cover("decoded");
}
int someOpts()
{
    int r = sym_choose(2, "validate");
    return Reader::UnescapeUnicode | (r ? Reader::ValidateUnicode : 0);
}
} // namespace

extern "C" void prop_escape()
{
    sym_expect("error"); sym_expect("decoded");
    char buf[9] = "\"\\";
    int opts = someOpts();
    if (sym_choose(2, "unicode")) {
        buf[2] = 'u';
        sym_bytes(buf + 3, 4, "hex");
        buf[7] = '"';
        against(std::string(buf, 8), opts);
    }
    else {
        sym_bytes(buf + 2, 1, "escape");
        buf[3] = 'x';
        buf[4] = '"';
        against(std::string(buf, 5), opts);
    }
}

extern "C" void prop_escape_pair()
{
    sym_expect("error"); sym_expect("decoded");
    char buf[16] = "\"\\u....\\u....";
    int opts = someOpts();
    for (int i = 0; i < 8; ++i) {
        unsigned char c;
        sym_bytes(&c, 1, "digit");
#ifdef B_LONG
        sym_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')));
#else
        sym_assume(((c >= '0') & (c <= '9')) | ((c >= (i < 4 ? 'A' : 'a')) & (c <= (i < 4 ? 'F' : 'f'))));
#endif
        buf[i < 4 ? 3 + i : 9 + (i - 4)] = c;
    }
#ifndef B_LONG
    sym_assume(buf[3] == 'D');
    sym_assume((buf[9] == 'd') | (buf[9] == 'e') | (buf[9] == '0'));
#endif
    sym_bytes(buf + 13, 1, "next");
    sym_assume(buf[13] != '\\');
    buf[14] = '"';
    against(std::string(buf, 15), opts);
}

extern "C" void prop_escape_kept()
{
    sym_expect("error"); sym_expect("decoded");
    char buf[9] = "\"\\u....\"";
    int validate = sym_choose(2, "validate");
    sym_bytes(buf + 3, 4, "hex");
    against(std::string(buf, 8), validate ? Reader::ValidateUnicode : 0);
}
