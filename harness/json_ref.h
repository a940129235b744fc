// Independent reference for the JSON grammar: tokens and documents.
#pragma once
#include <string>
#include <vector>
#include <cstddef>

namespace {
enum RT { R_EOS, R_ERR, R_OS, R_OE, R_AS, R_AE, R_SEP, R_KEY, R_STR, R_INT, R_FLT, R_BOOL, R_NULL };

// reference tokenizer, written from the JSON grammar and reader.h's options
struct Ref
{
    const unsigned char* s; size_t n; size_t i; bool comments, unesc, valid;
    std::string text; bool b;
    bool digit(size_t k) const { return k < n && s[k] >= '0' && s[k] <= '9'; }
    int hex(size_t k) const
    {
        if (k >= n) return -1;
        unsigned char c = s[k];
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    void put(unsigned cp)
    {
        if (cp < 0x80) text += char(cp);
        else if (cp < 0x800) { text += char(0xC0 | (cp >> 6)); text += char(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { text += char(0xE0 | (cp >> 12)); text += char(0x80 | ((cp >> 6) & 63)); text += char(0x80 | (cp & 63)); }
        else { text += char(0xF0 | (cp >> 18)); text += char(0x80 | ((cp >> 12) & 63)); text += char(0x80 | ((cp >> 6) & 63)); text += char(0x80 | (cp & 63)); }
    }
    bool utf8()
    {
        unsigned char c = s[i];
        auto cont = [&](size_t k, unsigned lo, unsigned hi) { return k < n && s[k] >= lo && s[k] <= hi; };
        size_t len = 0;
        if (c >= 0xC2 && c <= 0xDF) { if (cont(i + 1, 0x80, 0xBF)) len = 2; }
        else if (c == 0xE0) { if (cont(i + 1, 0xA0, 0xBF) && cont(i + 2, 0x80, 0xBF)) len = 3; }
        else if (c == 0xED) { if (cont(i + 1, 0x80, 0x9F) && cont(i + 2, 0x80, 0xBF)) len = 3; }
        else if (c >= 0xE1 && c <= 0xEF) { if (cont(i + 1, 0x80, 0xBF) && cont(i + 2, 0x80, 0xBF)) len = 3; }
        else if (c == 0xF0) { if (cont(i + 1, 0x90, 0xBF) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF)) len = 4; }
        else if (c >= 0xF1 && c <= 0xF3) { if (cont(i + 1, 0x80, 0xBF) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF)) len = 4; }
        else if (c == 0xF4) { if (cont(i + 1, 0x80, 0x8F) && cont(i + 2, 0x80, 0xBF) && cont(i + 3, 0x80, 0xBF)) len = 4; }
        if (!len) return false;
        for (size_t k = 0; k < len; ++k) text += char(s[i++]);
        return true;
    }
    RT str()
    {
        text.clear();
        for (;;) {
            if (i >= n) return R_ERR;
            unsigned char c = s[i];
            if (c == '"') { i++; return R_STR; }
            if (c == '\n') return R_ERR;
            if (c >= 0x80 && valid) { if (!utf8()) return R_ERR; continue; }
            if (c != '\\') { text += char(c); i++; continue; }
            i++;
            if (i >= n) return R_ERR;
            c = s[i++];
            switch (c) {
            case '"': case '/': case '\\': text += char(c); break;
            case 'b': text += '\b'; break;
            case 'f': text += '\f'; break;
            case 'n': text += '\n'; break;
            case 'r': text += '\r'; break;
            case 't': text += '\t'; break;
            case 'u': {
                for (int k = 0; k < 4; ++k) if (hex(i + k) < 0) return R_ERR;
                if (!unesc) { text += "\\u"; for (int k = 0; k < 4; ++k) text += char(s[i + k]); i += 4; break; }
                unsigned cp = 0;
                for (int k = 0; k < 4; ++k) cp = cp * 16 + hex(i + k);
                i += 4;
                if (cp >= 0xDC00 && cp <= 0xDFFF) return R_ERR;
                if (cp >= 0xD800 && cp <= 0xDBFF) {
                    if (!(i + 1 < n && s[i] == '\\' && s[i + 1] == 'u')) return R_ERR;
                    unsigned lo = 0;
                    for (int k = 0; k < 4; ++k) { if (hex(i + 2 + k) < 0) return R_ERR; lo = lo * 16 + hex(i + 2 + k); }
                    if (lo < 0xDC00 || lo > 0xDFFF) return R_ERR;
                    i += 6;
                    cp = 0x10000 + (cp - 0xD800) * 0x400 + (lo - 0xDC00);
                }
                put(cp);
                break;
            }
            default: return R_ERR;
            }
        }
    }
    RT number()
    {
        size_t st = i; RT r = R_INT;
        if (s[i] == '-') { i++; if (!digit(i)) return R_ERR; }
        while (digit(i)) i++;
        if (i < n && s[i] == '.') { r = R_FLT; i++; if (!digit(i)) return R_ERR; while (digit(i)) i++; }
        if (i < n && (s[i] == 'e' || s[i] == 'E')) {
            r = R_FLT; i++;
            if (i < n && (s[i] == '+' || s[i] == '-')) i++;
            if (!digit(i)) return R_ERR;
            while (digit(i)) i++;
        }
        text.assign((const char*)s + st, i - st);
        return r;
    }
    bool lit(const char* l) { for (; *l; ++l, ++i) if (i >= n || s[i] != (unsigned char)*l) return false; return true; }
    RT next()
    {
        for (;;) {
            if (i >= n) return R_EOS;
            unsigned char c = s[i];
            if (c == ' ' || (c >= 9 && c <= 13)) { i++; continue; }
            if (c == '/' && i + 1 < n && s[i + 1] == '/') {
                if (!comments) return R_ERR;
                while (i < n && s[i] != '\n') i++;
                continue;
            }
            break;
        }
        switch (s[i]) {
        case '{': i++; return R_OS;
        case '}': i++; return R_OE;
        case '[': i++; return R_AS;
        case ']': i++; return R_AE;
        case ',': i++; return R_SEP;
        case ':': i++; return R_KEY;
        case 'n': return lit("null") ? R_NULL : R_ERR;
        case 't': b = true; return lit("true") ? R_BOOL : R_ERR;
        case 'f': b = false; return lit("false") ? R_BOOL : R_ERR;
        case '"': i++; return str();
        case '-': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return number();
        default: return R_ERR;
        }
    }
};
} // namespace
