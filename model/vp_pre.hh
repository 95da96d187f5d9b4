// Prefix header for the bitcode build: instantiate libstdc++ templates in the
// module instead of taking them from libstdc++.so, and keep the locale-bound
// members out of line (rt.cc supplies "C"-locale versions).
#pragma once
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <ios>
#include <ostream>
#include <istream>
namespace std {
  template<> char basic_ios<char>::widen(char) const;
  template<> char basic_ios<char>::narrow(char, char) const;
  template<> void basic_ios<char>::_M_cache_locale(const locale&);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long long);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(unsigned long long);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(bool);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(double);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(long double);
  template<> template<> basic_ostream<char>& basic_ostream<char>::_M_insert(const void*);
}
// classification and case in the "C" locale
#include <locale>
namespace std {
  template<> inline wchar_t tolower(wchar_t c, const locale &) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  template<> inline wchar_t toupper(wchar_t c, const locale &) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  template<> inline char tolower(char c, const locale &) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  template<> inline char toupper(char c, const locale &) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
// times are printed as a fixed text
#include <iomanip>
namespace std { template<> inline basic_ostream<char> &operator<<(basic_ostream<char> &os, _Put_time<char>) { return os << "(time)"; } }
// Hash values: any function of the value that respects equality will do for the
// containers, so combining leaves the seed alone (all keys share one bucket).
#define hash_combine vp_boost_hash_combine
#include <boost/functional/hash.hpp>
#undef hash_combine
namespace boost { template <class T> inline void hash_combine(std::size_t &, const T &) {} }
#endif
