// P08: ID3v1 tags of every flavour are read, edited and written faithfully.
#include "vp.h"
#include <scribbu/id3v1.hh>
#include <sstream>
#include <cstring>
#include <memory>
#include <iterator>
using namespace scribbu;

// reference image of a tag: what the format says its bytes are
struct image {
  bool ext = false, v11 = false;
  unsigned char title[90] = {}, artist[90] = {}, album[90] = {}, comment[30] = {}, year[4] = {}, genre = 0, track = 0;
  unsigned char speed = 0, egenre[30] = {}, start[6] = {}, end[6] = {};
  static void put(unsigned char *&p, const unsigned char *s, int n) { memcpy(p, s, n); p += n; }
  int bytes(unsigned char *out) const {
    unsigned char *p = out;
    if (ext) {
      put(p, (const unsigned char *)"TAG+", 4); put(p, title + 30, 60); put(p, artist + 30, 60); put(p, album + 30, 60);
      *p++ = speed; put(p, egenre, 30); put(p, start, 6); put(p, end, 6);
    }
    put(p, (const unsigned char *)"TAG", 3); put(p, title, 30); put(p, artist, 30); put(p, album, 30); put(p, year, 4);
    put(p, comment, 28);
    if (v11) { *p++ = 0; *p++ = track; } else put(p, comment + 28, 2);
    *p++ = genre; return p - out;
  }
  void from(const unsigned char *b, bool e) {
    ext = e;
    if (ext) {
      memcpy(title + 30, b + 4, 60); memcpy(artist + 30, b + 64, 60); memcpy(album + 30, b + 124, 60);
      speed = b[184]; memcpy(egenre, b + 185, 30); memcpy(start, b + 215, 6); memcpy(end, b + 221, 6); b += 227;
    }
    memcpy(title, b + 3, 30); memcpy(artist, b + 33, 30); memcpy(album, b + 63, 30); memcpy(year, b + 93, 4);
    memcpy(comment, b + 97, 30); genre = b[127];
    if (b[125] == 0 && b[126] != 0) { v11 = true; track = b[126]; comment[28] = comment[29] = 0; }
  }
};
static std::string written(const id3v1_tag &t) { std::ostringstream os; t.write(os); return os.str(); }
static void same(const id3v1_tag &t, const image &m, const char *what) {
  unsigned char b[355]; int n = m.bytes(b);
  vp_assert((int)t.size() == n, "reported size is not the format's size");
  vp_assert(t.extended() == m.ext && t.enhanced() == m.ext, "extended flag");
  std::string s = written(t);
  vp_assert((int)s.size() == n, "written size is not the reported size");
  for (int i = 0; i < n; ++i) vp_assert((unsigned char)s[i] == b[i], what);
}
template <class F> static void raw(F get, const unsigned char *want, std::size_t n, const char *what) {
  std::vector<unsigned char> v; get(std::back_inserter(v));
  vp_assert(v.size() >= n, what);
  for (std::size_t i = 0; i < n; ++i) vp_assert(v[i] == want[i], what);
}
static void fields(const id3v1_tag &t, const image &m) {
  std::size_t w = m.ext ? 90 : 30;
  raw([&](auto it) { t.title(it); }, m.title, w, "title"); raw([&](auto it) { t.artist(it); }, m.artist, w, "artist");
  raw([&](auto it) { t.album(it); }, m.album, w, "album"); raw([&](auto it) { t.comment(it); }, m.comment, m.v11 ? 28 : 30, "comment");
  raw([&](auto it) { t.year(it); }, m.year, 4, "year");
  vp_assert(t.genre() == m.genre, "genre");
  vp_assert(t.v1_1() == m.v11 && t.track_number().first == m.v11, "track number present exactly when the format says so");
  if (m.v11) vp_assert(t.track_number().second == m.track, "track number");
  vp_assert(t.speed().first == m.ext, "speed present exactly in an extended tag");
  if (m.ext) {
    vp_assert(t.speed().second == m.speed, "speed");
    raw([&](auto it) { t.enh_genre(it); }, m.egenre, 30, "extended genre");
    raw([&](auto it) { t.start_time(it); }, m.start, 6, "start time"); raw([&](auto it) { t.end_time(it); }, m.end, 6, "end time");
  }
}
// any tail
static void tail(unsigned char *b, bool ext) {
  int n = ext ? 355 : 128; vp_sym(b, n, "tail");
  if (ext) { memcpy(b, "TAG+", 4); memcpy(b + 227, "TAG", 3); } else memcpy(b, "TAG", 3);
}
extern "C" void h_read() {
  unsigned char b[4 + 355]; bool ext = vp_flag("ext"); int n = ext ? 355 : 128;
  tail(b + 4, ext);
  int how = vp_choice(0, 2, "how");
  image m; m.from(b + 4, ext);
  std::unique_ptr<id3v1_tag> p;
  if (how == 0) { std::istringstream is(std::string((char *)b + 4, n)); p.reset(new id3v1_tag(is)); }
  else if (how == 1) { std::istringstream is(std::string((char *)b + 4, n)); p.reset(new id3v1_tag(is, ext)); }
  else {
    // found at the end of a longer stream
    memset(b, 'x', 4); std::istringstream is(std::string((char *)b, n + 4)); p = process_id3v1(is);
    vp_assert(p != nullptr, "tag at the end of a stream not found");
  }
  vp_cover("read");
  if (m.v11) { vp_cover("v1.1"); } else vp_cover("v1");
  fields(*p, m); same(*p, m, "reading and writing back changes the tag");
  vp_observe(written(*p)[ext ? 300 : 120]);
}
extern "C" void h_bad() {                // anything else is refused by exception
  unsigned char b[355]; memset(b, 'q', 355); bool ext = vp_flag("ext"); int n = ext ? 355 : 128;
  vp_sym(b, 4, "head"); if (ext) vp_sym(b + 227, 3, "head2");
  int cut = vp_choice(0, 2, "cut"); int how = vp_choice(0, 1, "how");
  bool ok = !cut && (ext ? !memcmp(b, "TAG+", 4) && !memcmp(b + 227, "TAG", 3) : !memcmp(b, "TAG", 3));
  std::istringstream is(std::string((char *)b, n - cut)); bool threw = false;
  try { if (how) id3v1_tag t(is, ext); else id3v1_tag t(is); } catch (const std::exception &) { threw = true; }
  vp_assert(threw == !ok, "malformed tag accepted or well-formed tag refused");
  if (threw) vp_cover("refused");
}
// setters
static void edit(id3v1_tag &t, image &m, int op, unsigned char x, unsigned char y, int len) {
  std::string s; for (int i = 0; i < len; ++i) s += i % 2 ? (char)y : (char)x;
  auto cpy = [&](unsigned char *d, int w) { memset(d, 0, w); memcpy(d, s.data(), len < w ? len : w); };
  int w = m.ext ? 90 : 30;
  switch (op) {
  case 0: t.set_title(s); cpy(m.title, w); break;
  case 1: t.set_artist(s); cpy(m.artist, w); break;
  case 2: t.set_album(s); cpy(m.album, w); break;
  case 3: t.set_comment(s); cpy(m.comment, m.v11 ? 28 : 30); break;
  case 4: t.set_year(s.c_str()); cpy(m.year, 4); break;
  case 5: t.set_genre(x); m.genre = x; break;
  case 6: t.set_track_number(x); m.track = x; m.v11 = true; break;
  case 7: t.set_enh_genre(s); cpy(m.egenre, 30); m.ext = true; break;
  case 8: t.set_speed(x); m.speed = x; m.ext = true; break;
  case 9: t.set_start_time(s.c_str()); cpy(m.start, 6); m.ext = true; break;
  case 10: t.set_end_time(s.c_str()); cpy(m.end, 6); m.ext = true; break;
  }
}
static void reread(const id3v1_tag &t, image m) {
  if (m.v11 && m.track == 0) { m.v11 = false; m.comment[28] = m.comment[29] = 0; }
  std::string s = written(t); std::istringstream is(s); id3v1_tag u(is); 
  if (!m.v11 && m.comment[28] == 0 && m.comment[29] != 0) return;   // reads as a track number: inherent in the format
  fields(u, m); same(u, m, "written tag reads back differently");
}
static const int lens[] = {0, 1, 4, 5, 29, 30, 31, 91};
template <class = void> static void edits(bool fresh) {
  image m; std::unique_ptr<id3v1_tag> p;
  if (fresh) {
    bool v11 = vp_flag("v11"), ext = vp_flag("ext"); m.v11 = v11; m.ext = ext; p.reset(new id3v1_tag(v11, ext));
    fields(*p, m); same(*p, m, "new tag is not all zero");
  } else {
    unsigned char b[355]; bool ext = vp_flag("ext"); tail(b, ext); m.from(b, ext);
    std::istringstream is(std::string((char *)b, ext ? 355 : 128)); p.reset(new id3v1_tag(is));
  }
  unsigned char c[2]; vp_sym(c, 2, "chars"); vp_assume(c[0] > 0x20 && c[0] < 0x7f && c[1] > 0x20 && c[1] < 0x7f);
  int op = vp_choice(0, 10, "op"), l = op == 5 || op == 6 || op == 8 ? 0 : lens[vp_choice(0, 7, "len")];
  edit(*p, m, op, c[0], c[1], l);
  fields(*p, m); same(*p, m, "setting a field changed other bytes or lost the value");
  reread(*p, m);
  int op2 = vp_choice(0, 10, "op"), l2 = op2 == 5 || op2 == 6 || op2 == 8 ? 0 : op2 == 3 ? 30 : 4;
  edit(*p, m, op2, c[1], c[0], l2);
  fields(*p, m); same(*p, m, "setting a second field changed other bytes or lost the value");
  reread(*p, m);
  vp_cover("edited"); if (m.ext) vp_cover("edited extended");
  vp_observe(p->genre());
}
extern "C" void h_new() { edits(true); }
extern "C" void h_edit() { edits(false); }
// a text getter with conversion gives the text without its padding
extern "C" void h_text() {
  bool ext = vp_flag("ext"); id3v1_tag t(vp_flag("v11"), ext);
  char c[3]; vp_sym(c, 3, "chars"); int n = vp_choice(0, 3, "n");
  for (int i = 0; i < 3; ++i) vp_assume(c[i] > 0x20 && c[i] < 0x7f);
  std::string s(c, n); t.set_title(s); t.set_artist(s); t.set_album(s); t.set_comment(s);
  vp_assert(t.title<std::string>() == s && t.artist<std::string>() == s && t.album<std::string>() == s && t.comment<std::string>() == s, "text getter");
  if (ext) { t.set_enh_genre(s); vp_assert(t.enh_genre<std::string>() == s, "extended genre getter"); }
  t.set_year(s.c_str()); vp_assert(t.year<std::string>() == s, "year getter");
  vp_cover("text");
}
