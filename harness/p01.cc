// P01: reading untrusted ID3v2 data is memory-safe, terminates and only fails by exception.
#include "vp.h"
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <scribbu/id3v2-utils.hh>
#include <sstream>
#include <cstring>
using namespace scribbu;

static void use(id3v2_tag &t) {
  vp_observe(t.num_frames()); vp_observe(t.padding());
  vp_observe(t.has_title()); vp_observe(t.has_play_count());
}
template <class F> static void look(const F &f) {
  // nothing a frame carries may come from outside its own bytes
  vp_observe(f.size());
  std::ostringstream os;
  try { f.write(os, false); } catch (const std::exception &) { vp_observe(0xbad); return; }
  std::string s = os.str();
  for (std::size_t i = 0; i < s.size(); ++i) vp_observe((unsigned char)s[i]);
}
static void look_at_frames(id3v2_tag &t) {
  if (auto p = dynamic_cast<id3v2_2_tag *>(&t)) for (auto &&f : *p) { const id3v2_2_frame &r = f; look(r); }
  else if (auto p = dynamic_cast<id3v2_3_tag *>(&t)) for (auto &&f : *p) { const id3v2_3_frame &r = f; look(r); }
  else if (auto p = dynamic_cast<id3v2_4_tag *>(&t)) for (auto &&f : *p) { const id3v2_4_frame &r = f; look(r); }
}
static void read_tag(const unsigned char *b, std::size_t n, bool deep) {
  std::istringstream is(std::string((const char *)b, n));
  try {
    std::unique_ptr<id3v2_tag> p = maybe_read_id3v2(is);
    if (p) { vp_cover("parsed"); if (p->num_frames()) vp_cover("parsed a frame"); use(*p); if (deep) look_at_frames(*p); vp_observe(1); }
    else { vp_cover("no tag"); }
  } catch (const std::exception &) { vp_cover("refused"); vp_observe(2); }
}
// every header and body byte arbitrary
template <int N> static void any_bytes(unsigned char ver) {
  unsigned char b[10 + N]; vp_sym(b, 10 + N, "file");
  b[0] = 'I'; b[1] = 'D'; b[2] = '3'; b[3] = ver; b[4] = 0; b[6] = 0; b[7] = 0; b[8] = 0;
  vp_assume(b[9] <= N + 1);
  read_tag(b, 10 + N, false);
}
extern "C" void h_any22() { any_bytes<9>(2); }
extern "C" void h_any23() { any_bytes<12>(3); }
extern "C" void h_any24() { any_bytes<12>(4); }
extern "C" void h_header() {           // the ten header bytes, short streams
  unsigned char b[12]; vp_sym(b, 12, "file"); std::size_t n = vp_choice(0, 12, "len");
  if (n > 3) vp_assume(b[3] <= 5);
  if (n > 8) { b[6] = 0; b[7] = 0; b[8] &= 1; }
  read_tag(b, n, false);
}
// frames of each kind: arbitrary size and flag bytes, arbitrary body
template <int IDN, int BODY> static void frames(unsigned char ver, const char *const *ids, int nids, int hdr, bool flags, bool ext) {
  const int cap = 10 + 20 + 16 + BODY + 8;
  unsigned char b[cap]; memset(b, 0, sizeof b);
  b[0] = 'I'; b[1] = 'D'; b[2] = '3'; b[3] = ver;
  if (!flags && !ext) { unsigned char hf; vp_sym(&hf, 1, "flags"); b[5] = hf & ~0x40; }
  int at = 10;
  if (ext) {
    int ne = vp_choice(0, ver == 4 ? 12 : 14, "extlen"); vp_sym(b + at, ne, "ext");
    for (int i = 0; i < 3 && i < ne; ++i) b[at + i] = 0;
    if (ne > 3) b[at + 3] = (unsigned char)vp_conc(b[at + 3] & 0x0f);
    if (ver == 4 && ne > 4) { vp_assume(b[at + 4] <= 2); b[at + 4] = (unsigned char)vp_conc(b[at + 4]); }
    if (ver == 4 && ne > 3) vp_assume(b[at + 3] >= ne || b[at + 3] == 0);  // bound: no frames inside it
    b[5] |= 0x40; at += ne;
  }
  const char *id = ids[vp_choice(0, nids - 1, "id")]; memcpy(b + at, id, IDN); at += IDN;
  int ns = hdr - IDN;                   // size and flag bytes
  vp_sym(b + at, ns, "fhdr");
  if (ver != 2) { b[at] = 0; b[at + 1] = 0; if (!flags) { b[at + 4] = 0; b[at + 5] = 0; } } else b[at] = 0;
  if (flags) { vp_assume(b[at + 2] == 0 && b[at + 3] <= BODY + 1); b[at + 2] = 0; b[at + 3] = (unsigned char)vp_conc(b[at + 3]); }
  at += ns;
  int nb = ext ? BODY : vp_choice(0, BODY, "bodylen");
  vp_sym(b + at, nb, "body");
  if (flags) {                          // bound: a declared decompressed size is at most 8, or too big to allocate
    unsigned char f1 = (unsigned char)vp_conc(b[at - 1] & (ver == 3 ? 0xe0 : 0x4f)); b[at - 1] = f1;
    int o = ver == 3 ? 0 : ((f1 & 0x40) != 0) + ((f1 & 0x04) != 0);
    if (ver == 4 && (f1 & 2)) for (int i = 0; i < nb - 4; ++i) vp_assume(b[at + i] != 0xff);   // bound: only the last four bytes hold escapes
    if ((ver == 3 ? f1 & 0x80 : f1 & 1) && o + 3 < nb) { unsigned char *q = b + at + o; vp_assume((q[0] == 0x7f && q[1] == 0 && q[2] == 0 && q[3] == 0) || (q[0] == 0 && q[1] == 0 && q[2] == 0 && q[3] <= 8)); }
  }
  at += nb;
  int pad = flags ? 0 : ext ? 1 : vp_choice(0, 2, "pad"); at += pad;
  b[9] = (unsigned char)(at - 10);
  read_tag(b, at, !flags && !ext);
}
static const char *const i2[] = {"TT2", "TXX", "UFI", "COM", "CNT", "POP", "XTG", "ZZZ"};
static const char *const i3[] = {"TIT2", "TXXX", "UFID", "COMM", "PCNT", "POPM", "XTAG", "PRIV", "ENCR", "ZZZZ"};
extern "C" void h_frame22() { frames<3, 5>(2, i2, 8, 6, false, false); }
extern "C" void h_frame23() { frames<4, 4>(3, i3, 10, 10, false, false); }
extern "C" void h_frame24() { frames<4, 4>(4, i3, 10, 10, false, false); }
static const char *const o3[] = {"TIT2", "ENCR", "ZZZZ"};
extern "C" void h_flags23() { frames<4, 8>(3, o3, 3, 10, true, false); }
extern "C" void h_flags24() { frames<4, 8>(4, o3, 3, 10, true, false); }
extern "C" void h_ext23() { frames<4, 1>(3, o3 + 2, 1, 10, false, true); }
extern "C" void h_ext24() { frames<4, 1>(4, o3 + 2, 1, 10, false, true); }
// two ENCR frames, in either order of dependency
template <class = void> static void encr(unsigned char ver) {
  unsigned char b[10 + 28]; memset(b, 0, sizeof b); b[0] = 'I'; b[1] = 'D'; b[2] = '3'; b[3] = ver; b[9] = 28;
  for (int k = 0; k < 2; ++k) {
    unsigned char *p = b + 10 + 14 * k; memcpy(p, "ENCR", 4); p[7] = 4;
    vp_sym(p + 8, 6, "rest"); p[8] = 0; p[9] &= 0x44;
  }
  read_tag(b, sizeof b, false);
}
extern "C" void h_encr23() { encr(3); }
extern "C" void h_encr24() { encr(4); }
