// Model of iconv(3) as provided by glibc for the encodings ID3 uses, of zlib
// and of the OpenSSL digest interface.  Compiled into the bitcode module only;
// compared with the real iconv by tools/iconv_selftest.cc.
#include "vp.h"
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <iconv.h>
#ifdef VP_ICONV_SELFTEST
#define iconv_open m_iconv_open
#define iconv m_iconv
#define iconv_close m_iconv_close
#define vp_unmodelled_encoding() abort()
#include <cstdlib>
#else
extern "C" void vp_unmodelled_encoding() __attribute__((noreturn));
#endif
namespace {
  enum { E_ASCII, E_LATIN1, E_UTF8, E_UCS2BE, E_UCS2LE, E_UCS2, E_U16BE, E_U16LE, E_U16, E_UCS4BE, E_UCS4LE, E_U32BE, E_U32LE, E_U32, E_CP1252 };
  const unsigned short W[32] = {0x20ac, 0, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0, 0x17d, 0, 0, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0, 0x17e, 0x178};
  struct CD { int src, dst; bool lossy, ignore; bool inbom, outbom; bool inswap; };
  bool eq(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false; return b[n] == 0; }
  int enc(const char *s, bool *lossy, bool *ignore) {
    size_t n = 0; while (s[n] && s[n] != '/') ++n;
    if (s[n] == '/' && lossy) { if (s[n + 2] == 'I') *ignore = true; else *lossy = true; }
    static const struct { const char *n; int e; } T[] = {{"ASCII", E_ASCII}, {"ISO-8859-1", E_LATIN1}, {"UTF-8", E_UTF8}, {"UCS-2BE", E_UCS2BE}, {"UCS-2LE", E_UCS2LE}, {"UCS-2", E_UCS2}, {"UTF-16BE", E_U16BE}, {"UTF-16LE", E_U16LE}, {"UTF-16", E_U16}, {"UCS-4", E_UCS4BE}, {"UCS-4BE", E_UCS4BE}, {"UCS-4LE", E_UCS4LE}, {"UTF-32BE", E_U32BE}, {"UTF-32LE", E_U32LE}, {"UTF-32", E_U32}, {"CP1252", E_CP1252}};
    for (auto &t : T) if (eq(s, t.n, n)) return t.e;
    vp_unmodelled_encoding();
  }
  // returns bytes consumed, 0 = incomplete, -1 = invalid; *skip: consumed but produces nothing
  int get(CD *c, const unsigned char *p, size_t n, uint32_t *cp, bool *skip) {
    *skip = false;
    switch (c->src) {
    case E_ASCII: if (p[0] >= 0x80) return -1; *cp = p[0]; return 1;
    case E_LATIN1: *cp = p[0]; return 1;
    case E_CP1252: if (p[0] < 0x80 || p[0] >= 0xa0) { *cp = p[0]; return 1; } *cp = W[p[0] - 0x80]; return *cp ? 1 : -1;
    case E_UTF8: {
      unsigned char b = p[0];
      if (b < 0x80) { *cp = b; return 1; }
      if (b < 0xc2) return -1;
      int k = b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0; // glibc accepts f5..f7 lead bytes only to reject them
      if (!k) return -1;
      uint32_t v = b & (k == 2 ? 0x1f : k == 3 ? 0x0f : 0x07);
      for (int i = 1; i < k; ++i) {
        if ((size_t)i >= n) return 0;
        if ((p[i] & 0xc0) != 0x80) return -1;
        if (i == 1) { if (b == 0xe0 && p[1] < 0xa0) return -1; if (b == 0xf0 && p[1] < 0x90) return -1; if (b == 0xf4 && p[1] > 0x8f) return -1; if (b == 0xed && p[1] > 0x9f) return -1; }
        v = v << 6 | (p[i] & 0x3f);
      }
      *cp = v; return k; }
    case E_UCS2BE: case E_UCS2LE: case E_UCS2: {
      if (n < 2) return 0;
      uint32_t v = c->src == E_UCS2BE ? p[0] << 8 | p[1] : p[1] << 8 | p[0];
      if (v >= 0xd800 && v < 0xe000) return -1;
      *cp = v; return 2; }
    case E_U16: case E_U16BE: case E_U16LE: {
      if (n < 2) return 0;
      if (c->src == E_U16 && !c->inbom) {
        c->inbom = true; uint32_t b = p[0] << 8 | p[1];
        if (b == 0xfeff) { c->inswap = true; *skip = true; return 2; }
        if (b == 0xfffe) { *skip = true; return 2; }
      }
      bool be = c->src == E_U16BE || (c->src == E_U16 && c->inswap);
      uint32_t v = be ? p[0] << 8 | p[1] : p[1] << 8 | p[0];
      if (v < 0xd800 || v >= 0xe000) { *cp = v; return 2; }
      if (v >= 0xdc00) return -1;
      if (n < 4) return 0;
      uint32_t w = be ? p[2] << 8 | p[3] : p[3] << 8 | p[2];
      if (w < 0xdc00 || w >= 0xe000) return -1;
      *cp = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); return 4; }
    default: {
      if (n < 4) return 0;
      uint32_t be = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3], le = (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
      if (c->src == E_U32 && !c->inbom) { c->inbom = true; if (be == 0xfeff) { c->inswap = true; *skip = true; return 4; } if (le == 0xfeff) { *skip = true; return 4; } }
      uint32_t v = (c->src == E_UCS4BE || c->src == E_U32BE || (c->src == E_U32 && c->inswap)) ? be : le;
      if (v >= 0x110000 || (v >= 0xd800 && v < 0xe000)) return -1;
      *cp = v; return 4; }
    }
  }
  // returns bytes produced, -1 = not representable, -2 = no room
  int put(CD *c, uint32_t v, unsigned char *o, size_t n) {
    switch (c->dst) {
    case E_ASCII: if (v >= 0x80) return -1; if (n < 1) return -2; o[0] = (unsigned char)v; return 1;
    case E_LATIN1: if (v >= 0x100) return -1; if (n < 1) return -2; o[0] = (unsigned char)v; return 1;
    case E_CP1252: if (v >= 0x100 || (v >= 0x80 && v < 0xa0)) { int k = -1; for (int i = 0; i < 32; ++i) if (W[i] && W[i] == v) k = i; if (k < 0) return -1; v = 0x80 + k; } if (n < 1) return -2; o[0] = (unsigned char)v; return 1;
    case E_UTF8:
      if (v < 0x80) { if (n < 1) return -2; o[0] = (unsigned char)v; return 1; }
      if (v >= 0xd800 && v < 0xe000) return -1;
      if (v < 0x800) { if (n < 2) return -2; o[0] = 0xc0 | v >> 6; o[1] = 0x80 | (v & 0x3f); return 2; }
      if (v < 0x10000) { if (n < 3) return -2; o[0] = 0xe0 | v >> 12; o[1] = 0x80 | (v >> 6 & 0x3f); o[2] = 0x80 | (v & 0x3f); return 3; }
      if (n < 4) return -2; o[0] = 0xf0 | v >> 18; o[1] = 0x80 | (v >> 12 & 0x3f); o[2] = 0x80 | (v >> 6 & 0x3f); o[3] = 0x80 | (v & 0x3f); return 4;
    case E_UCS2BE: case E_UCS2LE: case E_UCS2:
      if (v >= 0x10000 || (v >= 0xd800 && v < 0xe000)) return -1; if (n < 2) return -2;
      if (c->dst == E_UCS2BE) { o[0] = v >> 8; o[1] = v; } else { o[1] = v >> 8; o[0] = v; } return 2;
    case E_U16: case E_U16BE: case E_U16LE: {
      bool be = c->dst == E_U16BE;
      if (v < 0x10000) { if (n < 2) return -2; if (be) { o[0] = v >> 8; o[1] = v; } else { o[1] = v >> 8; o[0] = v; } return 2; }
      if (n < 4) return -2;
      uint32_t h = 0xd7c0 + (v >> 10), l = 0xdc00 + (v & 0x3ff);
      if (be) { o[0] = h >> 8; o[1] = h; o[2] = l >> 8; o[3] = l; } else { o[1] = h >> 8; o[0] = h; o[3] = l >> 8; o[2] = l; } return 4; }
    default: {
      if (n < 4) return -2; bool be = c->dst == E_UCS4BE || c->dst == E_U32BE;
      if (be) { o[0] = v >> 24; o[1] = v >> 16; o[2] = v >> 8; o[3] = v; } else { o[3] = v >> 24; o[2] = v >> 16; o[1] = v >> 8; o[0] = v; } return 4; }
    }
  }
}
#ifdef VP_ICONV_SELFTEST
#define CONC(x) (x)
#else
#define CONC(x) vp_conc((uint64_t)(int64_t)(x))
#endif
#ifdef VP_ICONV_SELFTEST
extern "C" iconv_t iconv_open(const char *to, const char *from) {
#else
static iconv_t real_iconv_open(const char *to, const char *from) {
#endif
  CD *c = (CD *)vp_malloc(sizeof(CD)); c->lossy = c->ignore = false; c->dst = enc(to, &c->lossy, &c->ignore); c->src = enc(from, nullptr, nullptr); if (c->src == E_UCS4BE || c->src == E_UCS4LE) vp_unmodelled_encoding(); c->inbom = c->outbom = c->inswap = false; return (iconv_t)c;
}
extern "C" int iconv_close(iconv_t c) { vp_free(c); return 0; }
static size_t convert(CD *c, char **in, size_t *inl, char **out, size_t *outl) {
  if (!in || !*in) { c->inbom = c->outbom = c->inswap = false; return 0; }
  *inl = CONC(*inl); *outl = CONC(*outl); bool ignored = false;
  while (*inl) {
    uint32_t cp = 0; bool skip; int k = get(c, (const unsigned char *)*in, *inl, &cp, &skip); k = (int)(long)CONC(k); skip = CONC(skip);
    if (k < 0) { if (c->lossy || c->ignore) vp_unmodelled_encoding(); errno = EILSEQ; return (size_t)-1; }
    if (k == 0) { errno = EINVAL; return (size_t)-1; }
    if (!skip) {
      if (!c->outbom && (c->dst == E_U16 || c->dst == E_U32)) {
        int k = c->dst == E_U16 ? 2 : 4; if (*outl < (size_t)k) { errno = E2BIG; return (size_t)-1; }
        unsigned char *o = (unsigned char *)*out; o[0] = 0xff; o[1] = 0xfe; if (k == 4) { o[2] = o[3] = 0; } *out += k; *outl -= k; c->outbom = true;
      }
      int m = put(c, cp, (unsigned char *)*out, *outl); m = (int)(long)CONC(m);
      if (m == -1) {
        if (c->lossy) vp_unmodelled_encoding();
        if (!c->ignore) { errno = EILSEQ; return (size_t)-1; }
        ignored = true; m = 0;
      }
      if (m == -2) { errno = E2BIG; return (size_t)-1; }
      *out += m; *outl -= m;
    }
    *in += k; *inl -= k;
  }
  if (ignored) { errno = EILSEQ; return (size_t)-1; }  // glibc reports what was left out this way
  return 0;
}
#ifdef VP_ICONV_SELFTEST
extern "C" size_t iconv(iconv_t cd, char **in, size_t *inl, char **out, size_t *outl) { return convert((CD *)cd, in, inl, out, outl); }
#else
static size_t real_iconv(iconv_t cd, char **in, size_t *inl, char **out, size_t *outl) { return convert((CD *)cd, in, inl, out, outl); }
#include "iconv_fault.hh"
#endif
#ifndef VP_ICONV_SELFTEST
#include "zlib_model.hh"
#include "md_model.hh"
#endif

#ifndef VP_ICONV_SELFTEST
// type descriptions of fundamental types live in the C++ runtime
#define VP_TI(x) struct vp_ti_##x { const void *vt; const char *name; }; extern const vp_ti_##x vp_tid_##x __asm__("_ZTI" #x); extern const vp_ti_##x vp_tid_##x = {0, #x};
VP_TI(b) VP_TI(c) VP_TI(a) VP_TI(h) VP_TI(s) VP_TI(t) VP_TI(i) VP_TI(j) VP_TI(l) VP_TI(m) VP_TI(x) VP_TI(y) VP_TI(f) VP_TI(d)
// times of files are not modelled
extern "C" size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; }
extern "C" char *stpcpy(char *d, const char *s) { while ((*d = *s)) ++d, ++s; return d; }
struct stat; extern "C" int stat(const char *, struct stat *) { errno = ENOENT; return -1; }
extern "C" char *tmpnam(char *s) { static char buf[24]; static int n; if (!s) s = buf; char t[] = "/tmp/fileAAAAAA"; t[14] += n++ % 26; for (size_t i = 0; i < sizeof t; ++i) s[i] = t[i]; return s; }
#endif
// number parsing in the C locale
static unsigned long long parse_number(const char *s, char **end, int base, bool is_signed, int bits) {
  const char *p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && ((p[2] >= '0' && p[2] <= '9') || ((p[2] | 32) >= 'a' && (p[2] | 32) <= 'f'))) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long r = 0, top = bits == 64 ? ~0ull : (1ull << bits) - 1; if (is_signed) top = (top >> 1) + neg; bool any = false, over = false;
  for (;; ++p) { int d = *p >= '0' && *p <= '9' ? *p - '0' : (*p | 32) >= 'a' && (*p | 32) <= 'z' ? (*p | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; if (r > (top - d) / base) over = true; else r = r * base + d; }
  if (end) *end = (char *)(any ? p : s); if (over) { errno = ERANGE; return is_signed && neg ? 0 - top : top; } return neg ? 0 - r : r;
}
#define VP_STRTO(TYPE, NAME, SIGNED) TYPE vp_##NAME(const char *, char **, int) __asm__(#NAME); TYPE vp_##NAME(const char *s, char **e, int b) { return parse_number(s, e, b, SIGNED, 64); } \
  TYPE vp23_##NAME(const char *, char **, int) __asm__("__isoc23_" #NAME); TYPE vp23_##NAME(const char *s, char **e, int b) { return parse_number(s, e, b, SIGNED, 64); }
VP_STRTO(long, strtol, true) VP_STRTO(long long, strtoll, true) VP_STRTO(unsigned long, strtoul, false) VP_STRTO(unsigned long long, strtoull, false)
