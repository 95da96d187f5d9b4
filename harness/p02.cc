// P02: what is written is what is read back.
#include "rw.hh"
using namespace scribbu;
// a frame as written agrees with what it was made from; own: whether flags that mark the frame as
// unsynchronised may differ
static void same_frames(const content &c, const std::vector<frame> &want, bool unsync) {
  vp_assert(c.frames.size() == want.size(), "the number of frames changed");
  for (std::size_t i = 0; i < want.size(); ++i) {
    const frame &a = c.frames[i], &b = want[i];
    vp_assert(a.id == b.id, "a frame's id changed, or frames changed places");
    vp_assert(a.f0 == b.f0, "a frame's status flags changed");
    u8 mask = c.ver == 4 && unsync ? 0xfd : 0xff;
    vp_assert((a.f1 & mask) == (b.f1 & mask), "a frame's format flags changed");
    vp_assert(a.body.size() == b.body.size(), "the size of a frame's contents changed");
    vp_assert(a.body == b.body, "a frame's contents changed");
  }
}
static void round_trip(sample &s) {
  encode(s);
  auto t = load(s);
  vp_assert(t->version() == s.ver && t->num_frames() == s.frames.size() && (int)t->padding() == s.pad, "version, frames and padding as read");
  bool u = vp_flag("unsync");
  bytes w = save(*t, u);
  content c = decode(w);
  vp_assert(c.ver == s.ver, "the version changed");
  vp_assert((bool)(c.flags & 0x80) == u, "the tag says whether it is unsynchronised");
  vp_assert((c.flags & 0x7f) == (s.flags & 0x7f), "the tag's flags changed");
  same_frames(c, s.frames, u);
  // ID3v2.2: a zero byte guarding the last frame's FF is part of the scheme, not of the padding
  vp_assert(c.pad == s.pad, "the padding changed");
  vp_cover("written and decoded");
  if (u) vp_cover("unsynchronised");
  // and once more, through the library's own reader
  auto t2 = load(w);
  vp_assert(t2->version() == s.ver && t2->num_frames() == t->num_frames() && t2->padding() == t->padding(), "version, frames or padding differ when read back");
  content d = decode(save(*t2, false));
  same_frames(d, s.frames, u);
  vp_assert((d.flags & 0x7f) == (s.flags & 0x7f), "the tag's flags differ when read back");
}
static void basic(int ver, int n) {
  sample s{ver}; s.pad = vp_choice(0, 2, "padding");
  bool two = vp_flag("two frames");
  s.frames.push_back(vp_flag("text") ? text_frame(ver, n) : other_frame(ver, n));
  if (two) s.frames.push_back(other_frame(ver, 1));
  round_trip(s);
}
static void kinds(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  switch (vp_choice(0, ver > 2 ? 6 : 4, "kind")) {
  case 0: s.frames.push_back(id_frame(ver, 2)); break;
  case 1: s.frames.push_back(count_frame(ver, vp_choice(1, 5, "n"))); break;
  case 2: s.frames.push_back(rating_frame(ver, vp_choice(0, 5, "n"))); break;
  case 3: s.frames.push_back(usertext_frame(ver, 1, 1)); break;
  case 4: s.frames.push_back(cloud_frame(ver)); break;
  case 5: s.frames.push_back(priv_frame(ver, 2)); break;
  case 6: s.frames.push_back(method_frame(ver, 2)); break;
  }
  if (vp_flag("first")) s.frames.push_back(other_frame(ver, 1));
  round_trip(s);
}
static void comm(int ver) {
  sample s{ver}; s.frames.push_back(comment_frame(ver, vp_choice(0, 1, "description length"), vp_choice(0, 1, "text length")));
  round_trip(s);
}
static void flags(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding"); s.flags = vp_flag("experimental") ? 0x20 : 0;
  frame f = other_frame(ver, 2); any_flags(ver, f);
  if (ver == 4) {
    if (vp_flag("own unsync")) f.f1 |= 2;
  }
  s.frames.push_back(f);
  round_trip(s);
}
static void compressed(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  frame f = mk("", "ZABC", ver, bytes()); bytes data = any_text(2, "data"), z(64, 0); unsigned long n = 64;
  vp_assume(compress((u8 *)&z[0], &n, (const u8 *)data.data(), 2) == 0); z.resize(n);
  bool g = vp_flag("grouped");
  if (ver == 3) { f.f1 = 0x80 | (g ? 0x20 : 0); f.body = be(2, 4) + (g ? any_text(1, "group") : bytes()) + z; }
  else { f.f1 = 9 | (g ? 0x40 : 0); f.body = (g ? any_text(1, "group") : bytes()) + ss(2) + z; }
  s.frames.push_back(f); round_trip(s);
}
extern "C" {
  void h_basic22() { basic(2, 3); } void h_basic23() { basic(3, 3); } void h_basic24() { basic(4, 3); }
  void h_kinds22() { kinds(2); } void h_kinds23() { kinds(3); } void h_kinds24() { kinds(4); }
  void h_comm22() { comm(2); } void h_comm23() { comm(3); } void h_comm24() { comm(4); }
  void h_flags23() { flags(3); } void h_flags24() { flags(4); }
  void h_zip23() { compressed(3); } void h_zip24() { compressed(4); }
}
