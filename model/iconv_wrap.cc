// Native counterpart of the converter faults in model/env.cc.
#include <iconv.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstddef>
static size_t real_iconv(iconv_t cd, char **in, size_t *inl, char **out, size_t *outl) {
  static auto real = (size_t (*)(iconv_t, char **, size_t *, char **, size_t *))dlsym(RTLD_NEXT, "iconv");
  return real(cd, in, inl, out, outl);
}
static iconv_t real_iconv_open(const char *to, const char *from) {
  static auto real = (iconv_t (*)(const char *, const char *))dlsym(RTLD_NEXT, "iconv_open");
  return real(to, from);
}
#include "iconv_fault.hh"
