// Stands in for libstdc++'s <bits/charconv.h> when the code under test is encoded: the same two functions, digit by digit
// instead of through a table of digit pairs (symbolic table indices are expensive).
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <type_traits>
#include <ext/numeric_traits.h>
namespace std {
namespace __detail {
template <typename _Tp> constexpr bool __integer_to_chars_is_unsigned = !__gnu_cxx::__int_traits<_Tp>::__is_signed;

template <typename _Tp> constexpr unsigned __to_chars_len(_Tp __value, int __base = 10) noexcept {
  unsigned __n = 1;
  const unsigned __b = __base;
  while (__value >= __b) { __value /= __b; ++__n; }
  return __n;
}
template <typename _Tp> void __to_chars_10_impl(char *__first, unsigned __len, _Tp __val) noexcept {
  for (unsigned __pos = __len; __pos-- > 0;) {
    __first[__pos] = (char)('0' + (unsigned)(__val % 10));
    __val /= 10;
  }
}
}  // namespace __detail
}  // namespace std
#endif
