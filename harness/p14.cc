// P14: text conversion returns all the text or reports failure.
#include "vp.h"
#include <scribbu/charsets.hh>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
using namespace scribbu;
extern "C" { extern int vp_iconv_full; extern unsigned vp_iconv_room, vp_iconv_hold; }

// --- reference decoders and encoders, written from the encoding definitions
enum kind { ascii, latin1, utf8, u16be, u16le, u32be, u32le };
static const struct { encoding e; kind k; bool surr, sniff, bom; } encs[] = {
  {encoding::ISO_8859_1, latin1, false, false, false}, {encoding::UTF_8, utf8, false, false, false}, {encoding::UCS_2LE, u16le, false, false, false}, {encoding::UCS_2BE, u16be, false, false, false},
  {encoding::UCS_2, u16le, false, false, false}, {encoding::UTF_16LE, u16le, true, false, false}, {encoding::UTF_16BE, u16be, true, false, false}, {encoding::UTF_16, u16le, true, true, true}, {encoding::ASCII, ascii, false, false, false},
  {encoding::UTF_32LE, u32le, true, false, false}, {encoding::UTF_32BE, u32be, true, false, false}, {encoding::UTF_32, u32le, true, true, true}};
typedef std::vector<uint32_t> chars;
static bool decode(int e, const unsigned char *p, size_t n, chars &out) {   // false: not a text of that encoding
  kind k = encs[e].k; size_t i = 0;
  if (encs[e].sniff && k == u16le && n >= 2) { if (p[0] == 0xfe && p[1] == 0xff) { k = u16be; i = 2; } else if (p[0] == 0xff && p[1] == 0xfe) i = 2; }
  if (encs[e].sniff && k == u32le && n >= 4) { if (!p[0] && !p[1] && p[2] == 0xfe && p[3] == 0xff) { k = u32be; i = 4; } else if (p[0] == 0xff && p[1] == 0xfe && !p[2] && !p[3]) i = 4; }
  while (i < n) switch (k) {
    case ascii: if (p[i] > 127) return false; out.push_back(p[i++]); break;
    case latin1: out.push_back(p[i++]); break;
    case utf8: {
      uint32_t c = p[i]; int m = c < 0x80 ? 0 : c < 0xc0 ? -1 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : c < 0xf8 ? 3 : -1; if (m < 0) return false;
      if (m) c &= 0x3f >> m; if (i + m >= n) return false;
      for (int j = 1; j <= m; ++j) { if (p[i + j] >> 6 != 2) return false; c = c << 6 | (p[i + j] & 63); }
      static const uint32_t least[4] = {0, 0x80, 0x800, 0x10000}; if (c < least[m] || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return false;
      out.push_back(c); i += m + 1; break; }
    case u16be: case u16le: {
      if (n - i < 2) return false; uint32_t c = k == u16be ? p[i] * 256 + p[i + 1] : p[i + 1] * 256 + p[i]; i += 2;
      if (c >= 0xd800 && c <= 0xdfff) {
        if (!encs[e].surr || c >= 0xdc00 || n - i < 2) return false; uint32_t d = k == u16be ? p[i] * 256 + p[i + 1] : p[i + 1] * 256 + p[i]; i += 2;
        if (d < 0xdc00 || d > 0xdfff) return false; c = 0x10000 + (c - 0xd800) * 0x400 + (d - 0xdc00);
      }
      out.push_back(c); break; }
    default: {
      if (n - i < 4) return false; uint32_t c = 0; for (int j = 0; j < 4; ++j) c = c << 8 | p[i + (k == u32be ? j : 3 - j)]; i += 4;
      if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return false; out.push_back(c); }
  }
  return true;
}
static bool encode(int e, const chars &s, std::string &o, bool ignore) {       // false: not representable
  kind k = encs[e].k;
  if (encs[e].bom && s.size()) o += k == u16le ? std::string("\xff\xfe", 2) : std::string("\xff\xfe\0\0", 4);
  for (uint32_t c : s) switch (k) {
    case ascii: case latin1: if (c > (k == ascii ? 127u : 255u)) { if (!ignore) return false; break; } o += (char)c; break;
    case utf8: { int m = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : 3; if (!m) { o += (char)c; break; } static const int mark[4] = {0, 0xc0, 0xe0, 0xf0}; o += (char)(mark[m] + (c >> (6 * m))); while (m--) o += (char)(0x80 + (c >> (6 * m) & 63)); break; }
    case u16be: case u16le: {
      uint32_t u[2]; int m = 1; u[0] = c; if (c > 0xffff) { if (!encs[e].surr) { if (!ignore) return false; break; } m = 2; u[0] = 0xd800 + (c - 0x10000) / 0x400; u[1] = 0xdc00 + (c & 0x3ff); }
      for (int j = 0; j < m; ++j) if (k == u16be) { o += (char)(u[j] >> 8); o += (char)u[j]; } else { o += (char)u[j]; o += (char)(u[j] >> 8); } break; }
    default: for (int j = 0; j < 4; ++j) o += (char)(c >> (8 * (k == u32be ? 3 - j : j)));
  }
  return true;
}
static void to_text(int src, int dst, const unsigned char *b, int n, on_no_encoding rsp) {
  chars c; std::string want; bool ok = decode(src, b, n, c);
  if (rsp == on_no_encoding::ignore) vp_assume(ok);         // bound: what is left out of malformed input is the converter's business
  if (dst == 1 && c.size() && c[0] == 0xfeff) c.erase(c.begin());
  if (ok) ok = encode(dst, c, want, rsp == on_no_encoding::ignore);
  while (want.size() && (want.back() == 0 || want.back() == ' ')) want.pop_back();
  try {
    std::string s = vp_flag("char") ? convert_encoding<std::string>((const char *)b, n, encs[src].e, encs[dst].e, rsp) : convert_encoding<std::string>(b, n, encs[src].e, encs[dst].e, rsp);
    vp_defined(s.data(), s.size());
    vp_assert(ok, "malformed or unrepresentable text accepted"); vp_assert(s == want, "text changed by conversion"); vp_cover("text");
  } catch (const iconv_error &) { vp_assert(!ok, "good text refused"); vp_cover("text refused"); }
}
extern "C" void h_to_utf8() {
  int src = vp_choice(0, 8, "src"), n = vp_choice(0, 4, "n"); if (encs[src].k == utf8 && n > 3) n = 3; unsigned char *b = new unsigned char[n]; vp_sym(b, n, "bytes");
  to_text(src, 1, b, n, on_no_encoding::fail); delete[] b;
}
extern "C" void h_to_narrow() {
  int dst = vp_flag("ascii") ? 8 : 0; static const int from[] = {0, 1, 2, 6}; int src = from[vp_choice(0, 3, "src")], n = vp_choice(0, 3, "n"); unsigned char b[3]; vp_sym(b, n, "bytes");
  to_text(src, dst, b, n, vp_flag("ignore") ? on_no_encoding::ignore : on_no_encoding::fail);
}
static void to_bytes(int dst, const std::string &t, bool bom, on_no_encoding rsp) {
  chars c; std::string want; bool ok = decode(1, (const unsigned char *)t.data(), t.size(), c);
  if (rsp == on_no_encoding::ignore) vp_assume(ok);
  if (ok) ok = encode(dst, c, want, rsp == on_no_encoding::ignore);
  if (bom && c.size() && !encs[dst].bom) switch (encs[dst].k) {
    case utf8: want = "\xef\xbb\xbf" + want; break; case u16le: want = "\xff\xfe" + want; break; case u16be: want = "\xfe\xff" + want; break;
    case u32le: want = std::string("\xff\xfe\0\0", 4) + want; break; case u32be: want = std::string("\0\0\xfe\xff", 4) + want; break; default: break; }
  try {
    std::vector<unsigned char> v = vp_flag("string") ? convert_encoding(t, encoding::UTF_8, encs[dst].e, bom, rsp) : convert_encoding(t.c_str(), encoding::UTF_8, encs[dst].e, bom, rsp);
    vp_defined(v.data(), v.size());
    vp_assert(ok, "malformed or unrepresentable text accepted"); vp_assert(v.size() == want.size(), "length changed by conversion"); vp_assert(!memcmp(v.data(), want.data(), v.size()), "bytes changed by conversion"); vp_cover("bytes");
  } catch (const iconv_error &) { vp_assert(!ok, "good text refused"); vp_cover("bytes refused"); }
}
static std::string text(int hi) { int n = vp_choice(0, hi, "n"); std::string t(n, 0); if (n) vp_sym(&t[0], n, "text"); for (char c : t) vp_assume(c != 0); return t; }
extern "C" void h_from_utf8() {
  int dst = vp_choice(0, 11, "dst"); std::string t = text(3); to_bytes(dst, t, vp_flag("bom"), vp_flag("ignore") ? on_no_encoding::ignore : on_no_encoding::fail);
}
extern "C" void h_from_utf8_4() { int dst = vp_choice(0, 11, "dst"); std::string t(4, 0); vp_sym(&t[0], 4, "text"); vp_assume((unsigned char)t[0] >= 0xf0); for (char c : t) vp_assume(c != 0); to_bytes(dst, t, false, on_no_encoding::fail); }
// the converter reports a full output buffer once or twice before it succeeds
extern "C" void h_full_text() {
  static const int from[] = {0, 2, 7}; int src = from[vp_choice(0, 2, "src")], n = vp_choice(1, 4, "n"); unsigned char b[4]; vp_sym(b, n, "bytes");
  vp_iconv_full = vp_choice(1, 2, "full"); vp_iconv_room = vp_choice(0, 2, "room"); to_text(src, 1, b, n, on_no_encoding::fail); vp_cover("full");
}
extern "C" void h_full_bytes() {
  static const int to[] = {0, 1, 3, 7, 11}; int dst = to[vp_choice(0, 4, "dst")]; std::string t = text(2);
  vp_iconv_full = vp_choice(1, 2, "full"); vp_iconv_room = vp_choice(0, 4, "room"); to_bytes(dst, t, vp_flag("bom"), on_no_encoding::fail);
}
// the converter gives the end of the text only when told that there is no more
extern "C" void h_held_text() {
  static const int from[] = {0, 1, 3, 7}; int src = from[vp_choice(0, 3, "src")], n = vp_choice(1, 3, "n"); unsigned char b[3]; vp_sym(b, n, "bytes");
  vp_iconv_hold = vp_choice(1, 2, "held"); if (vp_flag("once")) { vp_iconv_full = 1; vp_iconv_room = vp_choice(0, 3, "room"); } to_text(src, 1, b, n, on_no_encoding::fail); vp_cover("held text");
}
extern "C" void h_held_bytes() {
  static const int to[] = {0, 1, 3, 7, 11}; int dst = to[vp_choice(0, 4, "dst")]; std::string t = text(2);
  vp_iconv_hold = vp_choice(1, 4, "held"); if (vp_flag("once")) { vp_iconv_full = 1; vp_iconv_room = vp_choice(0, 4, "room"); } to_bytes(dst, t, vp_flag("bom"), vp_flag("ignore") ? on_no_encoding::ignore : on_no_encoding::fail);
}
extern "C" void h_unit() {               // encodings whose characters are not single bytes are refused
  int i = vp_choice(0, 11, "enc"); bool wide = encs[i].k >= u16be; int refused = 0;
  try { convert_encoding<std::string>((const unsigned char *)"ab", 2, encoding::ISO_8859_1, encs[i].e); } catch (const bad_code_unit &) { ++refused; }
  try { convert_encoding("ab", encs[i].e, encoding::UTF_8); } catch (const bad_code_unit &) { ++refused; }
  vp_assert(refused == (wide ? 2 : 0), "text in an encoding that does not fit bytes"); vp_cover("unit");
}
extern "C" void h_names() {              // every encoding and policy is printed and read back
  int i = vp_conc(vp_any<unsigned char>("enc")); vp_assume(i <= (int)encoding::JAVA); encoding e = (encoding)i, f;
  std::ostringstream s; s << e; std::istringstream t(s.str()); t >> f; vp_assert(e == f, "encoding read back differs"); vp_cover("encoding");
  on_no_encoding r = (on_no_encoding)vp_choice(0, 2, "policy"), q; std::ostringstream u; u << r; std::istringstream v(u.str()); v >> q; vp_assert(r == q, "policy read back differs");
}
