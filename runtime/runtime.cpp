// C/C++ runtime pieces that live in shared libraries, written so that they can be executed symbolically.
// Compiled to bitcode with every harness; the native build does not use this file.
#ifndef __NO_INLINE__
#define __NO_INLINE__ 1   // no inline bodies from the C headers
#endif
#include <string>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <memory>
#include <typeinfo>
#include <new>
#include <map>
#include <unordered_map>
#include <cstdarg>
#include <cstdint>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <mutex>
#include <cxxabi.h>
#include <pthread.h>
#include "sym.h"

extern "C" {
int sym_fmtd(char* b, size_t n, const char* fmt, double d);
double sym_strtod(const char* p, size_t n, int* erange);
char __libc_single_threaded = 0;
static thread_local int errnoVal;
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; } // objects of ended threads aren't looked at
int* __errno_location(void) { return &errnoVal; }
void* __dso_handle = nullptr;

int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isgraph(int c) { return c > 32 && c < 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }

static long long strtoImpl(const char* s, char** end, int base) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    // the calls keep these branches, selects would pile up in the value
    if (*p == '-') { neg = true; p++; sym_is_concrete(1); } else if (*p == '+') { p++; sym_is_concrete(2); }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, ovf = false; int count = 0;
    unsigned long long lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull;
    if (base == 10) { // text written from a symbolic integer and left unchanged
        const char* q = p; bool conc = true;
        for (; isdigit((unsigned char)*q); q++) if (!sym_is_concrete((unsigned char)*q)) conc = false;
        uint64_t u;
        if (!conc && sym_undigits(p, q - p, &u)) {
            if (end) *end = (char*)q;
            if (u > lim) { errno = ERANGE; return neg ? INT64_MIN : INT64_MAX; }
            return neg ? (long long)(0 - u) : (long long)u;
        }
    }
    for (;; p++) {
        unsigned d; unsigned char c = *p;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= (unsigned)base) break;
        any = true;
        if (ovf) continue;
        if (base == 10 && count++ < 18) { v = v * 10 + d; continue; } // can't overflow
        unsigned long long hi = lim / base, lo = lim % base;
        if (v > hi || (v == hi && d > lo)) ovf = true;
        else v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    if (ovf) { errno = ERANGE; return neg ? INT64_MIN : INT64_MAX; }
    return neg ? (long long)(0 - v) : (long long)v;
}
static unsigned long long strtouImpl(const char* s, char** end, int base) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    // the calls keep these branches, selects would pile up in the value
    if (*p == '-') { neg = true; p++; sym_is_concrete(1); } else if (*p == '+') { p++; sym_is_concrete(2); }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, ovf = false;
    for (;; p++) {
        unsigned d; unsigned char c = *p;
        if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= (unsigned)base) break;
        any = true;
        if (ovf) continue;
        if (v > (~0ull - d) / base) ovf = true; else v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    if (ovf) { errno = ERANGE; return ~0ull; }
    return neg ? 0 - v : v;
}
long strtol(const char* s, char** e, int b) { return strtoImpl(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtoImpl(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return strtouImpl(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtouImpl(s, e, b); }

static bool lit(const char* p, const char* w) { for (; *w; p++, w++) if (tolower((unsigned char)*p) != *w) return false; return true; }
double strtod(const char* s, char** end) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    const char* b = p;
    bool neg = false;
    if (*p == '-') { neg = true; p++; sym_is_concrete(1); } else if (*p == '+') { p++; sym_is_concrete(2); }
    if (lit(p, "inf")) { p += lit(p, "infinity") ? 8 : 3; if (end) *end = (char*)p; return neg ? -__builtin_inf() : __builtin_inf(); }
    if (lit(p, "nan")) { if (end) *end = (char*)(p + 3); return __builtin_nan(""); }
    bool digits = false, hexa = false; unsigned long m = 0; int nd = 0; long ex = 0; bool symEx = false; int nex = 0;
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { hexa = digits = true; p += 2; while (isxdigit((unsigned char)*p)) p++; }
    else {
        const char* q0 = p; bool conc0 = true; uint64_t u;
        while (isdigit((unsigned char)*p)) { if (!sym_is_concrete((unsigned char)*p)) conc0 = false; p++; digits = true; nd++; }
        if (!conc0 && nd <= 15 && sym_undigits(q0, p - q0, &u)) m = u;
        else for (int i = 0; i < nd && i < 18; ++i) m = m * 10 + ((unsigned char)q0[i] - '0');
        if (*p == '.') {
            p++;
            if (!digits && !isdigit((unsigned char)*p)) p--;
            while (isdigit((unsigned char)*p)) { if (nd++ < 18) m = m * 10 + ((unsigned char)*p - '0'); ex--; p++; digits = true; }
        }
        if (digits && (*p == 'e' || *p == 'E')) {
            const char* q = p + 1; bool eneg = false; long v = 0;
            if (*q == '+' || *q == '-') eneg = *q++ == '-';
            if (isdigit((unsigned char)*q)) {
                while (isdigit((unsigned char)*q)) { if (!sym_is_concrete((unsigned char)*q)) symEx = true; if (nex++ < 8) v = v * 10 + (*q - '0'); q++; }
                p = q;
                ex += eneg ? -v : v;
            }
        }
    }
    if (!digits) { if (end) *end = (char*)s; return 0.0; }
    if (end) *end = (char*)p;
    bool allConc = true;
    for (const char* q = b; q < p; q++) if (!sym_is_concrete((unsigned char)*q)) allConc = false;
    if (allConc) { int er = 0; double d = sym_strtod(b, p - b, &er); if (er) errno = ERANGE; return d; }
    if (!hexa && !symEx && nd <= 15 && ex >= -22 && ex <= 22) { // exact operands, hence correctly rounded
        static const double p10[] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22 };
        double d = (double)m;
        if (ex > 0) d = d * p10[ex]; else if (ex < 0) d = d / p10[-ex];
        return neg ? -d : d;
    }
    // value not modelled: any finite double, or out of range unless the text is too short for it
    double d = sym_fresh_double();
    if (nex <= 2 && nd <= 200) { sym_assume(d - d == 0.0); return d; }
    bool finite = d - d == 0.0;
    if (!finite) { errno = ERANGE; return neg ? -__builtin_inf() : __builtin_inf(); }
    return d;
}

static void outc(char* buf, size_t n, size_t& k, char c) { if (k + 1 < n) buf[k] = c; k++; }
static void num(char* buf, size_t n, size_t& k, uint64_t v, bool neg, int base, int width, bool zero, bool left, bool upper) {
    char d[32]; int m = 0;
    if (base == 10) m = sym_digits(v, d);
    else {
        int nd = 1; for (; nd < 16 && (v >> (4 * nd)) != 0; nd++) {}
        for (int i = nd; i-- > 0;) { unsigned x = (v >> (4 * i)) & 15; d[m++] = x < 10 ? '0' + x : (upper ? 'A' : 'a') + x - 10; }
    }
    int pad = width - m - (neg ? 1 : 0);
    if (!left && !zero) for (; pad > 0; pad--) outc(buf, n, k, ' ');
    if (neg) outc(buf, n, k, '-');
    if (!left && zero) for (; pad > 0; pad--) outc(buf, n, k, '0');
    for (int i = 0; i < m; i++) outc(buf, n, k, d[i]);
    for (; pad > 0; pad--) outc(buf, n, k, ' ');
}
__attribute__((noinline)) static void numNegative(char* buf, size_t n, size_t& k, int64_t v, int width, bool zero, bool left) {
    num(buf, n, k, 0 - (uint64_t)v, true, 10, width, zero, left, false);
}
int vsnprintf(char* buf, size_t n, const char* f, va_list ap) {
    size_t k = 0;
    for (; *f; f++) {
        if (*f != '%') { outc(buf, n, k, *f); continue; }
        f++;
        bool left = false, zero = false, plus = false, alt = false; int width = 0, prec = -1, lng = 0;
        const char* spec = f - 1;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') {} else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'h') lng -= 1; else lng += (*f == 'l') ? 1 : 2; f++; }
        (void)alt; (void)spec;
        switch (*f) {
        case '%': outc(buf, n, k, '%'); break;
        case 'c': outc(buf, n, k, (char)va_arg(ap, int)); break;
        case 's': {
            const char* s = va_arg(ap, const char*);
            if (!s) s = "(null)";
            size_t l = 0; while ((prec < 0 || l < (size_t)prec) && s[l]) l++;
            int pad = width - (int)l;
            if (!left) for (; pad > 0; pad--) outc(buf, n, k, ' ');
            for (size_t i = 0; i < l; i++) outc(buf, n, k, s[i]);
            for (; pad > 0; pad--) outc(buf, n, k, ' ');
            break;
        }
        case 'd': case 'i': {
            int64_t v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int);
            if (lng == -1) v = (short)v; else if (lng <= -2) v = (signed char)v;
            bool neg = v < 0;
            if (plus && !neg) outc(buf, n, k, '+');
            // separate functions: a merge would become a select, and the digits those of another expression
            if (neg) numNegative(buf, n, k, v, width, zero, left); else num(buf, n, k, (uint64_t)v, false, 10, width, zero, left, false);
            break;
        }
        case 'u': case 'x': case 'X': {
            uint64_t v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v;
            num(buf, n, k, v, false, *f == 'u' ? 10 : 16, prec > width ? prec : width, zero || prec > 0, left, *f == 'X');
            break;
        }
        case 'p': { uint64_t v = (uint64_t)va_arg(ap, void*); outc(buf, n, k, '0'); outc(buf, n, k, 'x'); num(buf, n, k, v, false, 16, 0, false, false, false); break; }
        case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': case 'a': {
            double d = va_arg(ap, double);
            uint64_t bits; __builtin_memcpy(&bits, &d, 8);
            if (!sym_is_concrete(bits)) { // infinities, nans and integral values, anything else isn't modelled
                const char* t = nullptr;
                if (d != d) t = "nan"; else if (d - d != 0.0) t = "inf";
                bool neg = d < 0.0;
                if (t) { if ((bits >> 63) != 0) outc(buf, n, k, '-'); for (; *t; ++t) outc(buf, n, k, *t); break; }
                if (d == 0.0) { // separate paths: a select here would become copysign of a symbolic sign
                    if ((bits >> 63) != 0) { sym_is_concrete(1); d = -0.0; } else { sym_is_concrete(2); d = 0.0; }
                }
                else if (*f == 'g' && (prec < 0 || prec >= 6) && d < 1e6 && d > -1e6) {
                    long i = (long)d;
                    if ((double)i == d) { num(buf, n, k, neg ? 0 - (uint64_t)i : (uint64_t)i, neg, 10, width, zero, left, false); break; }
                }
            }
            char fm[32]; int m = 0;
            fm[m++] = '%'; if (plus) fm[m++] = '+'; if (zero) fm[m++] = '0'; if (left) fm[m++] = '-';
            if (width) { if (width >= 10) fm[m++] = '0' + width / 10; fm[m++] = '0' + width % 10; }
            if (prec >= 0) { fm[m++] = '.'; if (prec >= 10) fm[m++] = '0' + prec / 10; fm[m++] = '0' + prec % 10; }
            fm[m++] = *f; fm[m] = 0;
            char tmp[512]; int l = sym_fmtd(tmp, sizeof tmp, fm, d);
            for (int i = 0; i < l; i++) outc(buf, n, k, tmp[i]);
            break;
        }
        default: sym_fail("printf conversion not modelled");
        }
    }
    if (n) buf[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int fputs(const char*, FILE*) { return 0; }
size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; }
int fflush(FILE*) { return 0; }
FILE* stderr; FILE* stdout; FILE* stdin;
}

namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

static char* dupc(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupc("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupc(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupc(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupc(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupc(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupc("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
static char sysCat[16];
const error_category& generic_category() noexcept { return *(const error_category*)sysCat; }
const error_category& system_category() noexcept { return *(const error_category*)sysCat; }

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
template class basic_string<char>;
nothrow_t const nothrow = nothrow_t();

size_t _Hash_bytes(const void* p, size_t n, size_t seed) { (void)p; (void)seed; return n * 31; }   // any hash function is legal; equality does the work

// std::map support (textbook red-black tree; only the operations the library uses)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base* y = g->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); }
        } else {
            _Rb_tree_node_base* y = g->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) noexcept {
    // structural removal without recolouring: the tree stays a correct search tree
    auto minOf = [](_Rb_tree_node_base* n) { while (n->_M_left) n = n->_M_left; return n; };
    auto maxOf = [](_Rb_tree_node_base* n) { while (n->_M_right) n = n->_M_right; return n; };
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = minOf(z->_M_right);
        if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color;
    }
    if (h._M_parent) { h._M_left = minOf(h._M_parent); h._M_right = maxOf(h._M_parent); h._M_parent->_M_color = _S_black; }
    else { h._M_left = h._M_right = &h; }
    return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173};
    size_t r = p[0];
    for (size_t i = 0; i < sizeof p / sizeof *p; i++) { r = p[i]; if (r >= n) break; }
    _M_next_resize = r;
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni; if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= nb) { size_t n = nb * 2 > want + 1 ? nb * 2 : want + 1; return make_pair(true, _M_next_bkt(n)); }
        _M_next_resize = nb;
    }
    return make_pair(false, (size_t)0);
}
}
}
#include "runtime_ext.h"
