// Reference for template terms (P16).
#ifndef VP_P16_HH
#define VP_P16_HH
#include "tags.hh"
#include <scribbu/tbt-support.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/winamp-genres.hh>
#include <memory>
using namespace scribbu;
using namespace scribbu::tbt_support;
typedef std::string str;

// --- reference: the transformations as documented
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool same_nocase(const str &t, size_t i, const char *lower) { for (size_t j = 0; lower[j]; ++j) if (lo(t[i + j]) != lower[j]) return false; return true; }
static str ref_the(const str &t, the_xform x) {
  size_t n = t.size();
  if (x == the_xform::make_suffix && n >= 5 && same_nocase(t, 0, "the ")) return str(t, 4) + ", The";
  if (x == the_xform::make_prefix && n >= 5 && same_nocase(t, n - 5, ", the")) return "The " + str(t, 0, n - 5);
  return t;
}
static str ref_cap(const str &t, capitalization x) {
  str r = t;
  if (x == capitalization::capitalize) { if (r.size()) r[0] = up(r[0]); }
  else for (size_t i = 0; i < r.size(); ++i) { if (x == capitalization::all_upper) r[i] = up(r[i]); if (x == capitalization::all_lower) r[i] = lo(r[i]); }
  return r;
}
static str ref_ws(const str &t, bool compress, const str &rep) {
  if (!compress && rep.empty()) return t;
  str r; bool in = false;
  for (size_t i = 0; i < t.size(); ++i) { bool ws = t[i] == ' ' || t[i] == '\t'; if (!ws) r += t[i]; else if (!in) r += rep.empty() ? str(" ") : rep; in = ws; }
  return r;
}
static bool chars_of(const str &t, std::vector<uint32_t> &out) {    // UTF-8
  for (size_t i = 0; i < t.size(); ) {
    uint32_t c = (unsigned char)t[i]; size_t m = c < 0x80 ? 0 : c < 0xc0 ? 9 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : c < 0xf8 ? 3 : 9; if (m == 9 || i + m >= t.size()) return false;
    if (m) c &= 0x3f >> m;
    for (size_t j = 1; j <= m; ++j) { unsigned char d = t[i + j]; if (d >> 6 != 2) return false; c = c << 6 | (d & 63); }
    static const uint32_t least[4] = {0, 0x80, 0x800, 0x10000}; if (c < least[m] || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return false;
    out.push_back(c); i += m + 1;
  }
  return true;
}
static str utf8_of(uint32_t c) { str r; if (c < 0x80) r += char(c); else { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } return r; }
static void trim(str &s) { while (s.size() && (s.back() == ' ' || !s.back())) s.pop_back(); }      // what every conversion in the library does
// false: not representable
static bool ref_encode(const str &t, output_encoding x, str &out) {
  if (x == output_encoding::utf_8) { out = t; return true; }
  std::vector<uint32_t> c; if (!chars_of(t, c)) return false;
  out.clear(); uint32_t lim = x == output_encoding::ascii ? 128 : 256;
  for (auto x1 : c) { if (x1 >= lim) return false; out += char(x1); }
  trim(out); return true;
}
static const the_xform thes[] = {the_xform::nil, the_xform::make_prefix, the_xform::make_suffix};
static const capitalization caps[] = {capitalization::nil, capitalization::capitalize, capitalization::all_upper, capitalization::all_lower};
static const output_encoding outs[] = {output_encoding::utf_8, output_encoding::ascii, output_encoding::iso8859_1};
static str any_rep() { static const char *const r[] = {"", "_", "--", " "}; return r[vp_choice(0, 3, "rep")]; }
#endif
