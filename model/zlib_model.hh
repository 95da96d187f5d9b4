// ---- zlib: compression as stored blocks; decompression of anything else has
// an arbitrary outcome (error, or any bytes)
extern "C" {
  unsigned long compressBound(unsigned long n) { return n + 16; }
  int compress(unsigned char *d, unsigned long *dl, const unsigned char *s, unsigned long n) {
    if (*dl < n + 11) return -5;
    unsigned char h[7] = {0x78, 0x01, 0x01, (unsigned char)n, (unsigned char)(n >> 8), (unsigned char)~n, (unsigned char)(~n >> 8)};
    memcpy(d, h, 7); memcpy(d + 7, s, n); memset(d + 7 + n, 0, 4); *dl = n + 11; return 0;
  }
  int uncompress(unsigned char *d, unsigned long *dl, const unsigned char *s, unsigned long n) {
    if (n >= 11 && s[0] == 0x78 && s[1] == 1 && s[2] == 1) { unsigned long m = s[3] | s[4] << 8; if (m + 11 == n) { if (*dl < m) return -5; memcpy(d, s + 7, m); *dl = m; return 0; } }
    if (*dl > 64 || vp_choice(0, 1, "uncompress-fails")) return -3;  // bound: at most 64 bytes of arbitrary output
    vp_sym(d, *dl, "uncompressed"); return 0;
  }
  // crc32: an arbitrary function of (previous checksum, data): equal arguments give equal results
  struct vp_crc_call { uint32_t in, out; unsigned n; unsigned char d[64]; };
  unsigned long crc32(unsigned long c, const unsigned char *p, unsigned n) {
    static vp_crc_call calls[24]; static int used;
    if (!p) return 0;
    if (n > 64 || used == 24) { uint32_t r; vp_sym(&r, 4, "crc32"); return r; }   // beyond this model: no relation between calls
    for (int i = 0; i < used; ++i) {
      vp_crc_call &k = calls[i];
      if (k.n != n || k.in != (uint32_t)c) continue;
      bool same = true; for (unsigned j = 0; j < n; ++j) if (k.d[j] != p[j]) { same = false; break; }
      if (same) return k.out;
    }
    vp_crc_call &k = calls[used++]; k.in = c; k.n = n; memcpy(k.d, p, n); vp_sym(&k.out, 4, "crc32"); return k.out;
  }
  const char *zError(int) { return "zlib error"; }
}
