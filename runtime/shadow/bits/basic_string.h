// std::to_string on top of the symbolic digits of the engine, the rest as it is
#ifndef VERIF_BASIC_STRING_H
#define VERIF_BASIC_STRING_H
#pragma GCC system_header
#define to_string libstdcxx_to_string
#include_next <bits/basic_string.h>
#undef to_string

extern "C" int sym_digits(unsigned long v, char* d);

namespace std
{
inline namespace __cxx11
{
    __attribute__((noinline)) inline string verif_unsigned(unsigned long v) { char b[24]; int n = sym_digits(v, b); return string(b, n); }
    __attribute__((noinline)) inline string verif_negative(unsigned long v) { char b[24]; b[0] = '-'; int n = sym_digits(0 - v, b + 1); return string(b, n + 1); }
    inline string to_string(unsigned long v) { return verif_unsigned(v); }
    inline string to_string(unsigned long long v) { return verif_unsigned(v); }
    inline string to_string(unsigned v) { return verif_unsigned(v); }
    inline string to_string(long v) { return v < 0 ? verif_negative(v) : verif_unsigned(v); }
    inline string to_string(long long v) { return v < 0 ? verif_negative(v) : verif_unsigned(v); }
    inline string to_string(int v) { return v < 0 ? verif_negative(v) : verif_unsigned(v); }
    inline string to_string(double v) { return libstdcxx_to_string(v); }
    inline string to_string(float v) { return libstdcxx_to_string(v); }
    inline string to_string(long double v) { return libstdcxx_to_string(v); }
}
}
#endif
