// What a converter may do, on top of real_iconv and real_iconv_open: report a
// full buffer early, hold back the end of the text until told that there is no
// more (as CP1258 and the shift encodings do), or not know the encoding.
extern "C" {
  int vp_iconv_full = 0; unsigned vp_iconv_room = 0;   // the next calls find only this much room
  unsigned vp_iconv_hold = 0;                          // bytes held back
  int vp_iconv_none = 0; char vp_iconv_to[48], vp_iconv_from[48];   // no converter; what was asked for
}
static unsigned vp_held = 0; static char vp_held_text[8];
static void vp_name(char *d, const char *s) { size_t i = 0; for (; s[i] && i < 47; ++i) d[i] = s[i]; d[i] = 0; }
extern "C" iconv_t iconv_open(const char *to, const char *from) {
  vp_held = 0;
  if (vp_iconv_none) { vp_name(vp_iconv_to, to); vp_name(vp_iconv_from, from); errno = EINVAL; return (iconv_t)-1; }
  return real_iconv_open(to, from);
}
extern "C" size_t iconv(iconv_t cd, char **in, size_t *inl, char **out, size_t *outl) {
  if (!in || !*in) {
    if (out && *out && vp_held) {
      if (*outl < vp_held) { errno = E2BIG; return (size_t)-1; }
      for (unsigned i = 0; i < vp_held; ++i) *(*out)++ = vp_held_text[i];
      *outl -= vp_held;
    }
    vp_held = 0; return real_iconv(cd, in, inl, out, outl);
  }
  size_t room = *outl; if (vp_iconv_full > 0) { --vp_iconv_full; if (vp_iconv_room < room) room = vp_iconv_room; }
  size_t left = room, r = real_iconv(cd, in, inl, out, &left), made = room - left;
  if (vp_iconv_hold && !*inl && made >= vp_iconv_hold) {
    vp_held = vp_iconv_hold; *out -= vp_held; left += vp_held; made -= vp_held;
    for (unsigned i = 0; i < vp_held; ++i) vp_held_text[i] = (*out)[i];
  }
  *outl -= made; return r;
}
