// ---- OpenSSL digest interface: records the bytes it is given, may fail when asked to
#include <cstddef>
extern "C" {
  unsigned char vp_md_log[4096]; size_t vp_md_len = 0; int vp_md_fail = 0;
  void *EVP_MD_CTX_new() { if (vp_md_fail == 1) return nullptr; return vp_malloc(1); }
  void EVP_MD_CTX_free(void *p) { vp_free(p); }
  const void *EVP_md5() { return vp_md_log; }
  int EVP_DigestInit_ex(void *, const void *, void *) { vp_md_len = 0; return vp_md_fail != 2; }
  int EVP_DigestUpdate(void *, const void *d, size_t n) { if (vp_md_fail == 3) return 0; const unsigned char *p = (const unsigned char *)d; for (size_t i = 0; i < n; ++i) { if (vp_md_len < sizeof vp_md_log) vp_md_log[vp_md_len] = p[i]; ++vp_md_len; } return 1; }
  int EVP_DigestFinal_ex(void *, unsigned char *md, unsigned *n) { for (int i = 0; i < 16; ++i) md[i] = (unsigned char)(vp_md_len + i); if (n) *n = 16; return 1; }
  unsigned long ERR_get_error() { return 7; }
  char *ERR_error_string(unsigned long, char *) { static char s[] = "openssl error"; return s; }
}
