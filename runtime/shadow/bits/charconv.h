// std::to_string and std::to_chars on top of the symbolic digits of the engine (see runtime.cpp)
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#pragma GCC system_header
#include <type_traits>
#include <ext/numeric_traits.h>

extern "C" int sym_digits(unsigned long v, char* d);

namespace std _GLIBCXX_VISIBILITY(default)
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail
{
#if __cpp_variable_templates
  template<typename _Tp>
    constexpr bool __integer_to_chars_is_unsigned
      = ! __gnu_cxx::__int_traits<_Tp>::__is_signed;
#endif

  template<typename _Tp>
    inline unsigned
    __to_chars_len(_Tp __value, int __base = 10) noexcept
    {
      if (__base == 10) { char __d[32]; return sym_digits((unsigned long)__value, __d); }
      unsigned __n = 1;
      for (; __value >= (unsigned)__base; __value /= (unsigned)__base) ++__n;
      return __n;
    }

  template<typename _Tp>
    inline void
    __to_chars_10_impl(char* __first, unsigned, _Tp __val) noexcept
    { sym_digits((unsigned long)__val, __first); }

}
_GLIBCXX_END_NAMESPACE_VERSION
}
#endif
