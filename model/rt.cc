// "C"-locale, single-threaded model of the parts of libstdc++/libc that live in
// shared libraries and are therefore not part of the encoded module.
#include "vp_pre.hh"
#include "vp.h"
#include <new>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <locale>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <typeinfo>
#include <string>
#include <cstring>
#include <cerrno>
#include <strstream>
#include <codecvt>
#include <ext/stdio_filebuf.h>

#ifndef VP_NEW_CAP
#define VP_NEW_CAP (1u<<22)
#endif

// ---- allocation
void *operator new(size_t n) { if (n > VP_NEW_CAP) throw std::bad_alloc(); return vp_malloc(n); }
void *operator new[](size_t n) { if (n > VP_NEW_CAP) throw std::bad_alloc(); return vp_malloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (n > VP_NEW_CAP) return nullptr; return vp_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (n > VP_NEW_CAP) return nullptr; return vp_malloc(n); }
void *operator new(size_t n, std::align_val_t) { return vp_malloc(n); }

// ---- libc
extern "C" {
  int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
  int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
  char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *p = (char *)vp_malloc(n); memcpy(p, s, n); return p; }
  char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)); return r; }
  char *vp_strchr(const char *s, int c) __asm__("strchr"); char *vp_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
  char *vp_strrchr(const char *s, int c) __asm__("strrchr"); char *vp_strrchr(const char *s, int c) { char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
  char *vp_strstr(const char *s, const char *t) __asm__("strstr"); char *vp_strstr(const char *s, const char *t) { for (;; ++s) { size_t i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return (char *)s; if (!*s) return nullptr; } }
  char *vp_strpbrk(const char *s, const char *t) __asm__("strpbrk"); char *vp_strpbrk(const char *s, const char *t) { for (; *s; ++s) if (vp_strchr(t, *s)) return (char *)s; return nullptr; }
  void *vp_memrchr(const void *s, int c, size_t n) __asm__("memrchr"); void *vp_memrchr(const void *s, int c, size_t n) { while (n--) if (((const unsigned char *)s)[n] == (unsigned char)c) return (char *)s + n; return nullptr; }
  void *vp_memmem(const void *s, size_t n, const void *t, size_t m) __asm__("memmem"); void *vp_memmem(const void *s, size_t n, const void *t, size_t m) { for (size_t i = 0; i + m <= n; ++i) if (!memcmp((const char *)s + i, t, m)) return (char *)s + i; return nullptr; }
  size_t strcspn(const char *s, const char *t) noexcept { size_t n = 0; while (s[n] && !vp_strchr(t, s[n])) ++n; return n; }
  size_t strspn(const char *s, const char *t) noexcept { size_t n = 0; while (s[n] && vp_strchr(t, s[n])) ++n; return n; }
  size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) ++n; return n; }
  char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
  char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
  char *strncat(char *d, const char *s, size_t n) noexcept { size_t k = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[k + i] = s[i]; d[k + i] = 0; return d; }
  int strncasecmp(const char *a, const char *b, size_t n) noexcept { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
  int strcasecmp(const char *a, const char *b) noexcept { return strncasecmp(a, b, ~(size_t)0); }
  int isblank(int c) noexcept { return c == ' ' || c == 9; }
  int isgraph(int c) noexcept { return c > 32 && c < 127; }
  static struct { char name[16], value[48]; bool set; } vp_environ[8];       // empty to begin with
  static int vp_env_at(const char *n, bool make) { for (int i = 0; i < 8; ++i) { if (!vp_environ[i].name[0]) { if (!make) return -1; strcpy(vp_environ[i].name, n); } if (!strcmp(vp_environ[i].name, n)) return i; } return -1; }
  char *getenv(const char *n) noexcept { int i = vp_env_at(n, false); return i < 0 || !vp_environ[i].set ? nullptr : vp_environ[i].value; }
  char *secure_getenv(const char *n) noexcept { return getenv(n); }
  int setenv(const char *n, const char *v, int) noexcept { int i = vp_env_at(n, true); strcpy(vp_environ[i].value, v); vp_environ[i].set = true; return 0; }
  int unsetenv(const char *n) noexcept { int i = vp_env_at(n, false); if (i >= 0) vp_environ[i].set = false; return 0; }
  struct tm *localtime(const time_t *) noexcept { static struct tm t; return &t; }
  char *strerror(int) noexcept { static char m[] = "error"; return m; }
  int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; }
  int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
  int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
  int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
  int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
  int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
  int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
  int isprint(int c) noexcept { return c >= 32 && c < 127; }
  int ispunct(int c) noexcept { return isprint(c) && !isalnum(c) && c != ' '; }
  int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
  int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
  char __libc_single_threaded = 1;
  int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
  char *__cxa_demangle(const char *n, char *, size_t *, int *st) { if (st) *st = -1; return nullptr; }
  void __cxa_bad_cast() { throw std::bad_cast(); }
  void __cxa_bad_typeid() { throw std::bad_typeid(); }
  void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}

// ---- exceptions
extern "C" { const char *vp_locale_name = "C"; }
namespace std {
  exception::~exception() noexcept {}
  const char *exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {}
  const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {}
  const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {}
  const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {}
  const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {}
  const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  type_info::~type_info() {}
  bad_function_call::~bad_function_call() noexcept {}
  const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
  int uncaught_exceptions() noexcept { return 0; }
  bool uncaught_exception() noexcept { return false; }

  static const char *keep(const char *s, size_t n) { char *p = (char *)vp_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
  __cow_string::__cow_string(const char *s, size_t n) { _M_p = keep(s, n); }
  __cow_string::__cow_string(const std::string &s) { _M_p = keep(s.data(), s.size()); }
  __cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
  __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
  __cow_string::~__cow_string() {}
  __cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
  __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
  logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
  logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
  logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
  logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
  logic_error &logic_error::operator=(const logic_error &) noexcept { return *this; }
  logic_error &logic_error::operator=(logic_error &&) noexcept { return *this; }
  logic_error::~logic_error() noexcept {}
  const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
  runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
  runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
  runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
  runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
  runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
  runtime_error &runtime_error::operator=(runtime_error &&) noexcept { return *this; }
  runtime_error::~runtime_error() noexcept {}
  const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
  EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
  EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
  void __throw_bad_exception() { throw bad_exception(); }
  void __throw_bad_alloc() { throw bad_alloc(); }
  void __throw_bad_array_new_length() { throw bad_array_new_length(); }
  void __throw_bad_cast() { throw bad_cast(); }
  void __throw_bad_typeid() { throw bad_typeid(); }
  void __throw_logic_error(const char *s) { throw logic_error(s); }
  void __throw_domain_error(const char *s) { throw domain_error(s); }
  void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
  void __throw_length_error(const char *s) { throw length_error(s); }
  void __throw_out_of_range(const char *s) { throw out_of_range(s); }
  void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
  void __throw_runtime_error(const char *s) { throw runtime_error(s); }
  void __throw_range_error(const char *s) { throw range_error(s); }
  void __throw_overflow_error(const char *s) { throw overflow_error(s); }
  void __throw_underflow_error(const char *s) { throw underflow_error(s); }
  void __throw_bad_function_call() { throw bad_function_call(); }

  // ---- error codes
  error_category::~error_category() noexcept {}
  error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
  bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
  bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
  __cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
  struct vp_category : error_category { const char *n; vp_category(const char *s) : n(s) {} const char *name() const noexcept override { return n; } string message(int) const override { return string("error"); } };
  static vp_category vp_generic("generic"), vp_system("system"), vp_iostream("iostream");
  namespace _V2 {
    const error_category &generic_category() noexcept { return vp_generic; }
    const error_category &system_category() noexcept { return vp_system; }
  }
  const error_category &iostream_category() noexcept { return vp_iostream; }
  system_error::~system_error() noexcept {}
  void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
  ios_base::failure::failure(const string &s) : system_error(error_code(1, iostream_category()), s) {}
  ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
  ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
  ios_base::failure::~failure() {}
  const char *ios_base::failure::what() const noexcept { return runtime_error::what(); }
  void __throw_ios_failure(const char *s) { throw ios_base::failure(s, error_code(1, iostream_category())); }
  void __throw_ios_failure(const char *s, int) { throw ios_base::failure(s, error_code(1, iostream_category())); }

  // ---- locale: always "C", whatever it is called
  locale::locale() noexcept : _M_impl(nullptr) {}
  locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
  locale::locale(const char *) : _M_impl(nullptr) {}
  locale::~locale() noexcept {}
  const locale &locale::operator=(const locale &) noexcept { return *this; }
  const locale &locale::classic() { static locale l; return l; }
  locale locale::global(const locale &) { return locale(); }
  string locale::name() const { return string(vp_locale_name); }
  bool locale::operator==(const locale &) const noexcept { return true; }
  locale::facet::~facet() {}
  size_t locale::id::_M_id() const noexcept { return 0; }

  // ---- UTF-8 <-> UTF-32
  codecvt<char32_t, char, mbstate_t>::~codecvt() {}
  __codecvt_utf8_base<char32_t>::~__codecvt_utf8_base() {}
  codecvt_base::result __codecvt_utf8_base<char32_t>::do_out(mbstate_t &, const char32_t *f, const char32_t *e, const char32_t *&fn, char *t, char *te, char *&tn) const {
    for (fn = f, tn = t; fn != e; ++fn) {
      char32_t c = *fn; if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return error;
      int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; if (te - tn < n) return partial;
      if (n == 1) *tn++ = (char)c; else { *tn++ = (char)((n == 2 ? 0xc0 : n == 3 ? 0xe0 : 0xf0) | (c >> (6 * (n - 1)))); for (int i = n - 2; i >= 0; --i) *tn++ = (char)(0x80 | ((c >> (6 * i)) & 0x3f)); }
    }
    return ok;
  }
  codecvt_base::result __codecvt_utf8_base<char32_t>::do_unshift(mbstate_t &, char *t, char *, char *&tn) const { tn = t; return noconv; }
  codecvt_base::result __codecvt_utf8_base<char32_t>::do_in(mbstate_t &, const char *f, const char *e, const char *&fn, char32_t *t, char32_t *te, char32_t *&tn) const {
    for (fn = f, tn = t; fn != e; ) {
      if (tn == te) return partial;
      unsigned char b = *fn; int n = b < 0x80 ? 1 : b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0; if (!n) return error;
      char32_t c = n == 1 ? b : b & (0x7f >> n);
      for (int i = 1; i < n; ++i) {
        if (fn + i == e) return partial;
        unsigned char x = fn[i]; if ((x & 0xc0) != 0x80) return error;
        if (i == 1 && ((b == 0xe0 && x < 0xa0) || (b == 0xed && x > 0x9f) || (b == 0xf0 && x < 0x90) || (b == 0xf4 && x > 0x8f))) return error;
        c = c << 6 | (x & 0x3f);
      }
      *tn++ = c; fn += n;
    }
    return ok;
  }
  int __codecvt_utf8_base<char32_t>::do_encoding() const noexcept { return 0; }
  bool __codecvt_utf8_base<char32_t>::do_always_noconv() const noexcept { return false; }
  int __codecvt_utf8_base<char32_t>::do_length(mbstate_t &, const char *, const char *, size_t) const { __builtin_trap(); }
  int __codecvt_utf8_base<char32_t>::do_max_length() const noexcept { return 4; }
  codecvt_base::result codecvt<char32_t, char, mbstate_t>::do_out(mbstate_t &, const char32_t *, const char32_t *, const char32_t *&, char *, char *, char *&) const { __builtin_trap(); }
  codecvt_base::result codecvt<char32_t, char, mbstate_t>::do_unshift(mbstate_t &, char *, char *, char *&) const { __builtin_trap(); }
  codecvt_base::result codecvt<char32_t, char, mbstate_t>::do_in(mbstate_t &, const char *, const char *, const char *&, char32_t *, char32_t *, char32_t *&) const { __builtin_trap(); }
  int codecvt<char32_t, char, mbstate_t>::do_encoding() const noexcept { return 0; }
  bool codecvt<char32_t, char, mbstate_t>::do_always_noconv() const noexcept { return false; }
  int codecvt<char32_t, char, mbstate_t>::do_length(mbstate_t &, const char *, const char *, size_t) const { __builtin_trap(); }
  int codecvt<char32_t, char, mbstate_t>::do_max_length() const noexcept { return 4; }

  // ---- iostreams base
  ios_base::Init::Init() {}
  ios_base::Init::~Init() {}
  ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_local_word(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
  ios_base::~ios_base() { _M_call_callbacks(erase_event); _M_dispose_callbacks(); if (_M_word != _M_local_word) { delete[] _M_word; _M_word = nullptr; } }
  void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
  void ios_base::_M_call_callbacks(event e) noexcept { _Callback_list *p = _M_callbacks; while (p) { (*p->_M_fn)(e, *this, p->_M_index); p = p->_M_next; } }
  void ios_base::_M_dispose_callbacks() noexcept { _Callback_list *p = _M_callbacks; while (p && p->_M_remove_reference() == 0) { _Callback_list *n = p->_M_next; delete p; p = n; } _M_callbacks = nullptr; }
  void ios_base::register_callback(event_callback f, int i) { _M_callbacks = new _Callback_list(f, i, _M_callbacks); }
  int ios_base::xalloc() noexcept { static int top = 0; return top++ + 4; }
  ios_base::_Words &ios_base::_M_grow_words(int ix, bool) {
    int n = _S_local_word_size; _Words *w = _M_local_word;
    if (ix > n - 1) { n = ix + 1; w = new _Words[n]; for (int i = 0; i < _M_word_size; ++i) w[i] = _M_word[i]; if (_M_word && _M_word != _M_local_word) delete[] _M_word; }
    _M_word = w; _M_word_size = n; return _M_word[ix];
  }
  void ios_base::_M_move(ios_base &o) noexcept {
    _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state;
    _M_call_callbacks(erase_event); _M_dispose_callbacks(); _M_callbacks = o._M_callbacks; o._M_callbacks = nullptr; if (_M_word != _M_local_word) delete[] _M_word;
    if (o._M_word == o._M_local_word) { _M_word = _M_local_word; _M_word_size = _S_local_word_size; for (int i = 0; i < _S_local_word_size; ++i) { _M_word[i] = o._M_word[i]; o._M_word[i] = _Words(); } }
    else { _M_word = o._M_word; _M_word_size = o._M_word_size; o._M_word = o._M_local_word; o._M_word_size = _S_local_word_size; }
  }
  void ios_base::_M_swap(ios_base &o) noexcept {
    std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); std::swap(_M_callbacks, o._M_callbacks);
    bool a = _M_word == _M_local_word, b = o._M_word == o._M_local_word; for (int i = 0; i < _S_local_word_size; ++i) std::swap(_M_local_word[i], o._M_local_word[i]);
    _Words *x = _M_word, *y = o._M_word; _M_word = b ? _M_local_word : y; o._M_word = a ? o._M_local_word : x; std::swap(_M_word_size, o._M_word_size);
  }
  locale ios_base::imbue(const locale &) noexcept { return locale(); }
  void ios_base_library_init() {}
  template<> char basic_ios<char>::widen(char c) const { return c; }
  template<> char basic_ios<char>::narrow(char c, char) const { return c; }
  template<> void basic_ios<char>::_M_cache_locale(const locale &) {}

  static basic_ostream<char> &put_num(basic_ostream<char> &os, unsigned long long v, bool neg, unsigned long long mag) {
    char b[72]; int n = 0; auto fl = os.flags(); auto bf = fl & ios_base::basefield; bool up = (fl & ios_base::uppercase) != 0;
    bool oct = bf == ios_base::oct, hex = bf == ios_base::hex; unsigned base = oct ? 8 : hex ? 16 : 10;
    unsigned long long x = (oct || hex) ? v : mag;
    if (oct || hex) neg = false;
    do { unsigned d = (unsigned)(x % base); b[n++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); x /= base; } while (x);
    if ((fl & ios_base::showbase) && v) { if (oct) b[n++] = '0'; else if (hex) { b[n++] = up ? 'X' : 'x'; b[n++] = '0'; } }
    if (neg) b[n++] = '-'; else if ((fl & ios_base::showpos) && !oct && !hex) b[n++] = '+';
    char o[72]; for (int i = 0; i < n; ++i) o[i] = b[n - 1 - i];
    basic_ostream<char>::sentry s(os);
    if (s) {
      long w = os.width(); auto adj = fl & ios_base::adjustfield; long pad = w > n ? w - n : 0; basic_streambuf<char> *sb = os.rdbuf(); bool ok = true; char f = os.fill(); int k = 0;
      if (adj == ios_base::internal) { if (n && (o[0] == '-' || o[0] == '+')) k = 1; else if (n > 1 && o[0] == '0' && (o[1] == 'x' || o[1] == 'X')) k = 2; if (k && sb->sputn(o, k) != k) ok = false; }
      if (adj != ios_base::left) for (long i = 0; i < pad && ok; ++i) if (sb->sputc(f) == char_traits<char>::eof()) ok = false;
      if (ok && sb->sputn(o + k, n - k) != n - k) ok = false;
      if (adj == ios_base::left) for (long i = 0; i < pad && ok; ++i) if (sb->sputc(f) == char_traits<char>::eof()) ok = false;
      os.width(0); if (!ok) os.setstate(ios_base::badbit);
    }
    return os;
  }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long v) { return put_num(*this, (unsigned long)v, v < 0, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v); }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long v) { return put_num(*this, v, false, v); }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long long v) { return put_num(*this, (unsigned long long)v, v < 0, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v); }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(unsigned long long v) { return put_num(*this, v, false, v); }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(bool v) { if (flags() & ios_base::boolalpha) { return *this << (v ? "true" : "false"); } return put_num(*this, v, false, v); }
  template<> istream &operator>>(istream &is, string &s) {
    auto sp = [](int c) { return c == ' ' || (c >= 9 && c <= 13); }; const int end = char_traits<char>::eof(); s.clear(); if (!is.good()) { is.setstate(ios_base::failbit); return is; }
    int c = is.rdbuf()->sgetc(); if (is.flags() & ios_base::skipws) while (c != end && sp(c)) c = is.rdbuf()->snextc();
    while (c != end && !sp(c)) { s += (char)c; c = is.rdbuf()->snextc(); }
    auto st = ios_base::goodbit; if (c == end) st |= ios_base::eofbit; if (s.empty()) st |= ios_base::failbit; is.width(0); if (st) is.setstate(st); return is;
  }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(const void *v) { return *this << "(ptr)"; }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(double v) {
    // fixed notation of moderate values is all that is ever wanted
    if (!(flags() & ios_base::fixed) || (flags() & ios_base::scientific) || v < 0 || v >= 1e15 || precision() > 6 || width()) return *this << "(double)";
    unsigned long n = (unsigned long)v, p = 1, k; int digits = (int)precision(); for (int i = 0; i < digits; ++i) p *= 10;
    double t = (v - (double)n) * (double)p; k = (unsigned long)t; t -= (double)k; if (t > .5 || (t == .5 && (k & 1))) ++k; if (k >= p) { k -= p; ++n; }
    string s; do s.insert(s.begin(), char('0' + n % 10)); while (n /= 10); if (digits) { string f; for (int i = 0; i < digits; ++i) { f.insert(f.begin(), char('0' + k % 10)); k /= 10; } s += '.' + f; } return *this << s;
  }
  template<> template<> basic_ostream<char> &basic_ostream<char>::_M_insert(long double) { return *this << "(double)"; }

  // ---- red-black trees (same contract as libstdc++'s tree.cc)
  _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
  }
  const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
  _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
  }
  const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
  static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
  static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
      _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
      if (x->_M_parent == xpp->_M_left) {
        auto *y = xpp->_M_right;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
        else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
      } else {
        auto *y = xpp->_M_left;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
        else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
      }
    }
    root->_M_color = _S_black;
  }
  _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
    } else {
      xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto *t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
      if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto *t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
    }
    if (y->_M_color != _S_red) {
      while (x != root && (x == 0 || x->_M_color == _S_black))
        if (x == xp->_M_left) {
          auto *w = xp->_M_right;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
          if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
        } else {
          auto *w = xp->_M_left;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
          if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
        }
      if (x) x->_M_color = _S_black;
    }
    return y;
  }
  // ---- hash tables: every key in one hash class (order of unordered containers is unspecified)
  size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }
  size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 0; }
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = k * 2 + 3; _M_next_resize = k; return k; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
      if (ne + ni > _M_next_resize) { size_t want = ne + ni + 1; if (want >= nb) { size_t k = _M_next_bkt(want > nb * 2 ? want : nb * 2); return {true, k}; } _M_next_resize = nb; }
      return {false, 0};
    }
    // ---- intrusive lists
    void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
    void _List_node_base::swap(_List_node_base &a, _List_node_base &b) noexcept { __builtin_trap(); }
  }
}

// the standard output streams swallow what they are given
namespace { struct vp_null_buf : std::streambuf { int_type overflow(int_type c) override { return traits_type::not_eof(c); } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } }; vp_null_buf vp_nb; }
extern std::ostream vp_cerr __asm__("_ZSt4cerr"), vp_cout __asm__("_ZSt4cout"), vp_clog __asm__("_ZSt4clog");
std::ostream vp_cerr(&vp_nb), vp_cout(&vp_nb), vp_clog(&vp_nb);
// ---- the time of day
#include <chrono>
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(); }
