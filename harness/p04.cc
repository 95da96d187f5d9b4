// P04: unsynchronisation hides every false sync and is reversible.
#include "edit.hh"
// does the data hold FF followed by E0 or more?
static bool has_sync(const bytes &b) { for (std::size_t i = 1; i < b.size(); ++i) if ((u8)b[i - 1] == 0xff && (u8)b[i] >= 0xe0) return true; return false; }
// nothing in b looks like the start of an audio frame, nor like an escape that is none
static void clean(const bytes &b) {
  for (std::size_t i = 0; i + 1 < b.size(); ++i) vp_assert(!((u8)b[i] == 0xff && (u8)b[i + 1] >= 0xe0), "an unsynchronised tag holds a false sync");
}
// plain and unsynchronised forms of a tag
static void forms(const id3v2_tag &t) {
  int ver = t.version(); bool need = t.needs_unsynchronisation(); std::size_t s0 = t.size(false), s1 = t.size(true);
  bytes a = save(t, false), b = save(t, true);
  content p = decode(a), q = decode(b);
  vp_assert(!(p.flags & 0x80) && (q.flags & 0x80), "a tag says whether it is unsynchronised");
  clean(q.area); clean(b);
  // what the scheme makes of the plain form, and how it is undone
  if (ver < 4) {
    bool guard = ver == 3 || p.pad;
    bytes fr = p.area.substr(0, p.area.size() - p.pad);
    // ID3v2.3: FF at the end of a frame or of the extended header may be guarded even where what follows is harmless
    vp_assert(q.plain.size() == p.area.size() && q.plain == p.area, "undoing unsynchronisation does not give the original");
    vp_assert(ref_resync(b.substr(10)).size() == a.size() - 10, "undoing unsynchronisation leaves something over");
    std::size_t min = ref_unsync(fr, guard && ver == 2).size() - fr.size(), ends = 0; for (auto &f : p.frames) if (f.body.size() && (u8)f.body.back() == 0xff) ++ends;
    if (p.ext.size() && (u8)p.ext.back() == 0xff) ++ends;
    vp_assert(b.size() - a.size() >= min && b.size() - a.size() <= min + ends, "the growth is not the number of escapes");
    std::vector<u8> v(q.area.begin(), q.area.end()); std::size_t n = resynchronise(v.data(), v.size());
    vp_assert(n == p.area.size() && bytes(v.begin(), v.begin() + n) == p.area, "the reader's way of undoing does not give the original");
  } else {
    vp_assert(p.frames.size() == q.frames.size() && p.pad == q.pad, "unsynchronisation changes the frames");
    for (std::size_t i = 0; i < p.frames.size(); ++i) vp_assert(p.frames[i].body == q.frames[i].body, "undoing unsynchronisation does not give the original");
    std::size_t grow = 0; for (auto &f : p.frames) if (!(f.f1 & 2)) grow += ref_unsync(f.body, true).size() - f.body.size();
    vp_assert(b.size() - a.size() == grow, "the growth is not the number of escapes");
  }
  vp_assert(s1 - s0 == b.size() - a.size(), "the predicted growth is not the actual one");
  // when is it needed?
  bool want;
  if (ver == 2) want = has_sync(p.area);
  else if (ver == 3) want = has_sync(p.area) || (p.frames.size() && p.frames.back().body.size() && (u8)p.frames.back().body.back() == 0xff);
  else { want = true; for (std::size_t i = 0; i < p.frames.size(); ++i) { auto &f = p.frames[i]; if (!((f.f1 & 2) == 0 && (has_sync(f.body) || (i + 1 == p.frames.size() && f.body.size() && (u8)f.body.back() == 0xff)))) want = false; } }
  vp_assert(need == want, "the need for unsynchronisation is misreported");
  if (need) vp_cover("needed"); else vp_cover("not needed");
  if (b.size() > a.size()) vp_cover("escapes");
}
static void check(sample &s) { encode(s); auto t = load(s); forms(*t); }
static void basic(int ver, int n) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding"); bool two = vp_flag("two frames");
  s.frames.push_back(other_frame(ver, n)); if (two) s.frames.push_back(other_frame(ver, 2));
  check(s);
}
static void kinds(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  switch (vp_choice(0, ver > 2 ? 8 : 6, "kind")) {
  case 0: s.frames.push_back(id_frame(ver, 1)); break;
  case 1: s.frames.push_back(count_frame(ver, vp_choice(1, 5, "n"))); break;
  case 2: s.frames.push_back(rating_frame(ver, vp_choice(0, 2, "n"))); break;
  case 3: s.frames.push_back(usertext_frame(ver, 1, 1)); break;
  case 4: s.frames.push_back(cloud_frame(ver)); break;
  case 5: s.frames.push_back(comment_frame(ver, 1, 1)); break;
  case 6: s.frames.push_back(text_frame(ver, 2)); break;
  case 7: s.frames.push_back(priv_frame(ver, 1)); break;
  case 8: s.frames.push_back(method_frame(ver, 1)); break;
  }
  check(s);
}
template <class V> static void lengths() {
  static const int ns[] = {255, 256, 511}; int n = ns[vp_choice(0, 2, "length")];
  bytes b(n, 'a'); bytes x = any_text(2, "ends"); b[0] = x[0]; b[n - 1] = x[1];
  typename V::tag t(vp_choice(0, 1, "padding")); t.push_back(V::mk_other(b));
  forms(t); vp_cover("long frame");
}
extern "C" {
  void h_basic22() { basic(2, 4); } void h_basic23() { basic(3, 4); } void h_basic24() { basic(4, 4); }
  void h_kinds22() { kinds(2); } void h_kinds23() { kinds(3); } void h_kinds24() { kinds(4); }
  void h_long22() { lengths<V2>(); } void h_long23() { lengths<V3>(); } void h_long24() { lengths<V4>(); }
  void h_own24() { sample s{4}; for (int i = 0; i < 2; ++i) { frame f = other_frame(4, 2); if (vp_flag("own")) f.f1 |= 2; s.frames.push_back(f); } check(s); vp_cover("frames unsynchronised on their own"); }
  void h_ext23() {
    typedef id3v2_3_tag::want_extended_header W; id3v2_3_tag t(vp_choice(0, 1, "padding"), false, vp_flag("crc") ? W::with_crc : W::present);
    t.push_back(V3::mk_other(any_text(2, "data"))); forms(t); vp_cover("extended header");
  }
  // undoing, for any input
  void h_resync() {
    int n = vp_choice(0, 7, "n"); bytes b = any_text(n, "data"); std::vector<u8> v(b.begin(), b.end()); v.push_back(0xaa);
    std::size_t m = resynchronise(v.data(), n); bytes r = ref_resync(b);
    vp_assert(m == r.size(), "size after undoing unsynchronisation"); for (std::size_t i = 0; i < m; ++i) vp_assert(v[i] == (u8)r[i], "contents after undoing unsynchronisation");
    vp_assert(v[n] == 0xaa, "undoing unsynchronisation writes beyond its data"); vp_cover("undone");
  }
}
