// Interface between a harness and whoever runs it (the symbolic executor, or
// the native replay driver in native.cc).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
  void vp_sym(void *p, size_t n, const char *name);          // n fresh arbitrary bytes
  void vp_assume_(bool c);
  void vp_assert_(bool c, const char *msg);
  void vp_cover(const char *name);                            // reachability witness
  void vp_observe_(uint64_t v, const char *name);             // value compared in native replay
  void vp_defined_(const void *p, size_t n, const char *name); // must not depend on uninitialised memory
  void vp_fail(const char *msg) __attribute__((noreturn));
  void vp_stop() __attribute__((noreturn));
  uint64_t vp_conc(uint64_t v);                               // case split on the value
  size_t vp_objsize(const void *p);
  void vp_print(const char *s);
  void vp_printv(const char *s, uint64_t v);
  void *vp_malloc(size_t n);
  void vp_free(void *p);
}
#define VP_STR_(x) #x
#define VP_STR(x) VP_STR_(x)
#define vp_assume(c) vp_assume_(c)
#define vp_assert(c, msg) vp_assert_((c), msg)
#define vp_defined(p, n) vp_defined_((p), (n), #p)
#define vp_observe(v) vp_observe_((uint64_t)(v), #v)
template <class T> inline T vp_any(const char *name) { T t; vp_sym(&t, sizeof(T), name); return t; }
// a value in [lo, hi], one execution path per value
inline uint64_t vp_choice(uint64_t lo, uint64_t hi, const char *name) {
  if (lo == hi) return lo;
  unsigned char c; vp_sym(&c, 1, name); vp_assume_(c >= lo && c <= hi); return vp_conc(c);
}
inline bool vp_flag(const char *name) { return vp_choice(0, 1, name) != 0; }
#ifndef VP_P
#define VP_P(name, dflt) dflt
#endif
