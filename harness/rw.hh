// Writing and re-reading tags: a reference decoder of the ID3v2 formats, and tags with
// symbolic contents for the harnesses of P02, P03, P04 and P05.
#ifndef VP_RW_HH
#define VP_RW_HH
#include "tags.hh"
#include <scribbu/id3v2-utils.hh>
#include <zlib.h>
#include <memory>
typedef unsigned char u8;

// ---- the formats, as their specifications describe them --------------------------------
// The unsynchronisation scheme: 00 goes between FF and anything from E0 up, between FF and 00,
// and (from ID3v2.3 on) after an FF that ends the data.
static bytes ref_unsync(const bytes &in, bool guard_end) {
  bytes r;
  for (std::size_t i = 0; i < in.size(); ++i) {
    r += in[i];
    if ((u8)in[i] != 0xff) continue;
    if (i + 1 == in.size() ? guard_end : ((u8)in[i + 1] >= 0xe0 || in[i + 1] == 0)) r += (char)0;
  }
  return r;
}
static bytes ref_resync(const bytes &in) {
  bytes r;
  for (std::size_t i = 0; i < in.size(); ++i) {
    r += in[i];
    if ((u8)in[i] == 0xff && i + 1 < in.size() && in[i + 1] == 0) ++i;
  }
  return r;
}
static unsigned rd(const bytes &b, std::size_t at, int n, int bits = 8) {
  unsigned r = 0; for (int i = 0; i < n; ++i) r = r << bits | (u8)b[at + i]; return r;
}
static unsigned rds(const bytes &b, std::size_t at, int n) {
  for (int i = 0; i < n; ++i) vp_assert(!((u8)b[at + i] & 0x80), "a sync-safe number has its top bits clear");
  return vp_conc(rd(b, at, n, 7));
}
// one frame: its id, its flag bytes as the format lays them out, what precedes the data, the data
struct frame { bytes id; u8 f0 = 0, f1 = 0; bytes body; u8 group = 0; };
struct content {
  int ver = 0; u8 flags = 0; unsigned size = 0; std::vector<frame> frames; int pad = 0;
  bytes area;               // everything between header and footer as stored
  bytes plain;              // the same once resynchronised (ID3v2.2 and 2.3)
  bytes ext;                // the extended header, resynchronised
  std::size_t end = 0;      // first byte after the tag
};
// Decode the tag at the front of b
static content decode(const bytes &b) {
  content c;
  vp_assert(b.size() >= 10, "a tag has a ten-byte header");
  vp_assert(b[0] == 'I' && b[1] == 'D' && b[2] == '3', "a tag starts with ID3");
  c.ver = vp_conc((u8)b[3]); c.flags = vp_conc((u8)b[5]);
  vp_assert(c.ver >= 2 && c.ver <= 4 && b[4] == 0, "version of the tag");
  c.size = rds(b, 6, 4);
  vp_assert(b.size() >= 10 + c.size, "the declared size goes beyond what was written");
  c.area = b.substr(10, c.size); c.end = 10 + c.size;
  bool un = c.flags & 0x80;
  c.plain = c.ver < 4 && un ? ref_resync(c.area) : c.area;
  const bytes &p = c.plain; std::size_t at = 0;
  if (c.ver == 3 && (c.flags & 0x40)) {
    vp_assert(p.size() >= 10, "extended header cut short");
    unsigned n = vp_conc(rd(p, 0, 4)); vp_assert((n == 6 || n == 10) && p.size() >= n + 4, "size of the extended header");
    c.ext = p.substr(0, n + 4); at = n + 4;
  } else if (c.ver == 4 && (c.flags & 0x40)) {
    vp_assert(p.size() >= 6, "extended header cut short");
    unsigned n = rds(p, 0, 4); vp_assert(n >= 6 && p.size() >= n, "size of the extended header");
    c.ext = p.substr(0, n); at = n;
  }
  std::size_t hdr = c.ver == 2 ? 6 : 10, idn = c.ver == 2 ? 3 : 4;
  while (at < p.size() && vp_conc((u8)p[at])) {
    frame f;
    vp_assert(p.size() - at >= hdr, "frame header cut short");
    f.id = p.substr(at, idn);
    unsigned n = c.ver == 2 ? rd(p, at + 3, 3) : c.ver == 3 ? rd(p, at + 4, 4) : rds(p, at + 4, 4);
    n = vp_conc(n);
    if (c.ver > 2) { f.f0 = vp_conc((u8)p[at + 8]); f.f1 = vp_conc((u8)p[at + 9]); }
    vp_assert(p.size() - at - hdr >= n, "a frame goes beyond the tag");
    f.body = p.substr(at + hdr, n);
    if (c.ver == 4 && (f.f1 & 2)) f.body = ref_resync(f.body);
    if (c.ver == 4 && un) vp_assert(f.f1 & 2, "in an unsynchronised ID3v2.4 tag every frame is marked so");
    c.frames.push_back(f); at += hdr + n;
  }
  c.pad = p.size() - at;
  for (; at < p.size(); ++at) vp_assert(p[at] == 0, "padding is all zeros");
  if (c.ver == 4 && (c.flags & 0x10)) {
    vp_assert(b.size() >= c.end + 10, "footer cut short");
    vp_assert(b.compare(c.end, 3, "3DI") == 0 && b.compare(c.end + 3, 7, b, 3, 7) == 0, "the footer repeats the header");
    c.end += 10;
  }
  return c;
}
// ---- tags with symbolic contents --------------------------------------------------------
struct sample { int ver; bytes raw; std::vector<frame> frames; int pad = 0; u8 flags = 0; bytes ext; };
static bytes encode_frame(int ver, const frame &f) {
  bytes body = f.body; if (ver == 4 && (f.f1 & 2)) body = ref_unsync(body, true);
  return raw_frame(ver, f.id, body, f.f0, f.f1);
}
static void encode(sample &s) {
  bytes fr; for (auto &f : s.frames) fr += encode_frame(s.ver, f);
  s.raw = raw_tag(s.ver, s.ext + fr, s.pad, s.flags);
  if (s.ver == 4 && (s.flags & 0x10)) { s.raw += "3DI"; s.raw += s.raw.substr(3, 7); }
}
static frame mk(const char *id2, const char *id4, int ver, const bytes &body) { frame f; f.id = ver == 2 ? id2 : id4; f.body = body; return f; }
// text: an encoding and n bytes of text
static bytes enc_byte(int ver) { int m = ver == 4 ? 3 : 1; u8 e = vp_choice(0, m, "encoding"); return bytes(1, (char)e); }
static frame text_frame(int ver, int n) { return mk("TT2", "TIT2", ver, enc_byte(ver) + any_text(n, "text")); }
static frame other_frame(int ver, int n) { return mk("ZAB", "ZABC", ver, any_text(n, "data")); }
static frame id_frame(int ver, int n) { bytes o = any_text(1, "owner"); vp_assume(o[0] != 0); return mk("UFI", "UFID", ver, o + nul() + any_text(n, "id")); }
static frame count_frame(int ver, int n) { bytes c = any_text(n, "count"); return mk("CNT", "PCNT", ver, c); }
static frame rating_frame(int ver, int n) {
  bytes e = any_text(1, "mail"); vp_assume(e[0] != 0);
  return mk("POP", "POPM", ver, e + nul() + any_text(1, "rating") + any_text(n, "count"));
}
// text in an encoding with a description; in the sixteen-bit encodings the terminator is two zero bytes at an even place
static bytes described(int e, int nd, int nt) {
  bool wide = e == 1 || e == 2; bytes d = any_text(wide ? nd * 2 : nd, "description"), t = any_text(wide ? nt * 2 : nt, "text");
  for (std::size_t i = 0; i < d.size(); i += wide ? 2 : 1) vp_assume(d[i] != 0 || (wide && d[i + 1] != 0));
  return d + nul(wide) + t;
}
static frame comment_frame(int ver, int nd, int nt) {
  bytes e = enc_byte(ver); bytes l = any_text(1, "lang"); return mk("COM", "COMM", ver, e + l + "ng" + described((u8)e[0], nd, nt));
}
static frame usertext_frame(int ver, int nd, int nt) { bytes e = enc_byte(ver); return mk("TXX", "TXXX", ver, e + described((u8)e[0], nd, nt)); }
static frame cloud_frame(int ver) {
  bytes k = any_text(1, "key"), v = any_text(1, "value"), o = any_text(1, "owner"); vp_assume(k[0] != 0 && v[0] != 0 && o[0] != 0);
  return mk("XTG", "XTAG", ver, raw_cloud(o, raw_key(k, {v})));
}
static frame priv_frame(int ver, int n) { bytes o = any_text(1, "owner"); vp_assume(o[0] != 0); return mk("PRI", "PRIV", ver, o + nul() + any_text(n, "data")); }
static frame method_frame(int ver, int n) {
  bytes o = any_text(1, "owner"); vp_assume(o[0] != 0); return mk("CRM", "ENCR", ver, o + nul() + any_text(1, "method") + any_text(n, "data"));
}
// the flag bits whose meaning the formats share, any group
static void any_flags(int ver, frame &f) {
  u8 b = vp_choice(0, 7, "frame flags"); f.f0 = ver == 3 ? b << 5 : b << 4;
  if (vp_flag("grouped")) { f.f1 |= ver == 3 ? 0x20 : 0x40; f.body = any_text(1, "group") + f.body; }
}
static std::unique_ptr<scribbu::id3v2_tag> load(const bytes &raw) { std::istringstream is(raw); return scribbu::read_id3v2(is); }
static std::unique_ptr<scribbu::id3v2_tag> load(const sample &s) { return load(s.raw); }
static bytes save(const scribbu::id3v2_tag &t, bool unsync) { std::ostringstream os; t.write(os, unsync); return os.str(); }
#endif
