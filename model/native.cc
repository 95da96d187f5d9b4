// Runs one harness entry natively on recorded inputs:  replay <entry> <inputs>
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <cstdint>
static std::vector<std::pair<std::string, std::vector<unsigned char>>> in_; static size_t at_ = 0; static bool tail_ = false;
extern "C" {
  void vp_sym(void *p, size_t n, const char *name) {
    if (at_ >= in_.size()) { if (!tail_) { tail_ = true; fprintf(stdout, "INPUTS-EXHAUSTED\n"); } memset(p, 0, n); return; }
    auto &e = in_[at_++];
    if (e.first != name || e.second.size() != n) { printf("DIVERGED want %s/%zu have %s/%zu\n", name, n, e.first.c_str(), e.second.size()); fflush(stdout); _exit(77); }
    memcpy(p, e.second.data(), n);
  }
  void vp_assume_(bool c) { if (!c) { printf("VP-ASSUME-FAILED\n"); fflush(stdout); _exit(76); } }
  void vp_assert_(bool c, const char *m) { if (!c) { printf("VP-ASSERT-FAILED %s\n", m); fflush(stdout); _exit(70); } }
  void vp_fail(const char *m) { vp_assert_(false, m); abort(); }
  void vp_stop() { printf("DONE\n"); fflush(stdout); _exit(0); }
  void vp_cover(const char *) {}
  void vp_observe_(uint64_t v, const char *n) { printf("OBS %s %llu\n", n, (unsigned long long)v); }
  void vp_defined_(const void *p, size_t n, const char *nm) { printf("DEF %s ", nm); for (size_t i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
  uint64_t vp_conc(uint64_t v) { return v; }
  size_t vp_objsize(const void *) { return ~(size_t)0; }
  void vp_print(const char *s) { printf("%s\n", s); }
  void vp_printv(const char *s, uint64_t v) { printf("%s = %llx\n", s, (unsigned long long)v); }
  void *vp_malloc(size_t n) { return malloc(n); }
  void vp_free(void *p) { free(p); }
}
#include "zlib_model.hh"
#include "md_model.hh"
int main(int argc, char **argv) {
  if (argc < 3) return 99;
  FILE *f = fopen(argv[2], "r"); if (!f) return 98;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0; char *sp = strrchr(line, ' '); if (!sp) continue; *sp = 0;
    std::vector<unsigned char> v; for (char *h = sp + 1; h[0] && h[1]; h += 2) { char b[3] = {h[0], h[1], 0}; v.push_back((unsigned char)strtoul(b, nullptr, 16)); } in_.push_back({line, v});
  }
  fclose(f); free(line);
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { printf("no entry %s\n", argv[1]); return 97; }
  e(); printf("DONE\n"); fflush(stdout); _exit(0);
}
