// P03: sizes reported, declared and written agree.
#include "edit.hh"
static void sizes(const id3v2_tag &t, bool u) {
  std::size_t said = t.size(u), pad = t.padding();
  std::ostringstream os; std::size_t ret = t.write(os, u); bytes w = os.str();
  vp_assert(ret == w.size(), "write reports the number of bytes it wrote");
  content c = decode(w);
  vp_assert(c.end == w.size(), "the size in the header is not the size written");
  // an ID3v2.4 tag with padding: see h_padding24
  vp_assert(said + 10 == w.size() || (t.version() == 4 && pad && said + 10 == w.size() + pad), "the size reported is not the size written");
  vp_assert(t.size(u) == said, "the size reported changes by writing");
  vp_cover("sizes compared"); if (u) vp_cover("sizes of an unsynchronised tag");
  // a reader that skips what is declared lands on what follows
  std::istringstream is(w + "xyz"); auto r = read_id3v2(is); vp_assert((bytes::size_type)is.tellg() == w.size(), "a reader does not end up where the tag ends");
  std::istringstream is2(w + "xyz"); id3v2_info I = looking_at_id3v2(is2); vp_assert(I.present_ && I.size_ + 10 == w.size(), "the size found by probing is not the size written");
}
static void check(sample &s) { encode(s); auto t = load(s); sizes(*t, vp_flag("unsync")); }
static void basic(int ver, int n) {
  sample s{ver}; s.pad = vp_choice(0, 2, "padding");
  bool two = vp_flag("two frames");
  s.frames.push_back(vp_flag("text") ? text_frame(ver, n) : other_frame(ver, n));
  if (two) s.frames.push_back(other_frame(ver, 1));
  check(s);
}
static void kinds(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  switch (vp_choice(0, ver > 2 ? 7 : 5, "kind")) {
  case 0: s.frames.push_back(id_frame(ver, 1)); break;
  case 1: s.frames.push_back(count_frame(ver, vp_choice(1, 5, "n"))); break;
  case 2: s.frames.push_back(rating_frame(ver, vp_choice(0, 2, "n"))); break;
  case 3: s.frames.push_back(usertext_frame(ver, 1, 1)); break;
  case 4: s.frames.push_back(cloud_frame(ver)); break;
  case 5: s.frames.push_back(comment_frame(ver, 1, 1)); break;
  case 6: s.frames.push_back(priv_frame(ver, 1)); break;
  case 7: s.frames.push_back(method_frame(ver, 1)); break;
  }
  check(s);
}
static void flags(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  frame f = other_frame(ver, 2);
  if (ver == 4 && vp_flag("own unsync")) f.f1 |= 2;
  if (vp_flag("grouped")) { f.f1 |= ver == 3 ? 0x20 : 0x40; f.body = any_text(1, "group") + f.body; }
  s.frames.push_back(f); check(s);
}
static void zipped(int ver) {
  sample s{ver}; s.pad = vp_choice(0, 1, "padding");
  frame f = mk("", "ZABC", ver, bytes()); bytes data = any_text(2, "data"), z(64, 0); unsigned long n = 64;
  vp_assume(compress((u8 *)&z[0], &n, (const u8 *)data.data(), 2) == 0); z.resize(n);
  if (ver == 3) { f.f1 = 0x80; f.body = be(2, 4) + z; } else { f.f1 = 9; f.body = ss(2) + z; }
  s.frames.push_back(f); check(s);
}
// frames long enough for FF to appear in their headers
template <class V> static void lengths() {
  static const int ns[] = {127, 128, 254, 255, 256, 511, 512}; int n = ns[vp_choice(0, 6, "length")];
  bytes b(n, 'a'); bytes x = any_text(2, "ends"); b[0] = x[0]; b[n - 1] = x[1];
  typename V::tag t(vp_choice(0, 1, "padding")); t.push_back(V::mk_other(b)); if (vp_flag("second")) t.push_back(V::mk_other("z"));
  sizes(t, vp_flag("unsync")); vp_cover("long frame");
}
// sizes of single frames
template <class V> static void single() {
  typename V::tag t; bool u = vp_flag("unsync");
  switch (vp_choice(0, 3, "kind")) {
  case 0: t.push_back(V::mk_other(any_text(3, "data"))); break;
  case 1: t.push_back(V::mk_count(vp_any<unsigned>("count"))); break;
  case 2: t.push_back(V::mk_rating(word(1, "mail"), vp_any<u8>("rating"), vp_any<unsigned>("count"))); break;
  case 3: { bytes b = any_text(3, "id"); b[1] = 0; vp_assume(b[0] != 0); t.push_back(V::mk_fileid(b)); break; }
  }
  const typename V::base &f = *t.cbegin(); std::size_t said = f.serialized_size(u);
  std::ostringstream os; std::size_t ret = f.write(os, u);
  vp_assert(ret == os.str().size() && said == ret, "the size a frame reports is not the size it writes");
  std::ostringstream plain; f.write(plain, false); vp_assert(plain.str().size() == f.size() + (V::ver == 2 ? 6 : 10), "the plain size of a frame"); vp_cover("single frame");
}
// edits in between
template <class V> static void edited() {
  typename V::tag t(vp_choice(0, 2, "padding")); bool u = vp_flag("unsync");
  t.title(word(1, "title")); t.size(u); t.push_back(V::mk_other(any_text(2, "data"))); if (vp_flag("write")) save(t, !u);
  switch (vp_choice(0, 3, "edit")) {
  case 0: t.title(word(2, "title")); break; case 1: t.padding(vp_choice(0, 3, "new padding")); break;
  case 2: t.erase(t.begin()); break; case 3: t.add_comment(word(1, "text"), language::eng); break; }
  sizes(t, u); vp_cover("edited tag");
}
extern "C" {
  void h_basic22() { basic(2, 3); } void h_basic23() { basic(3, 3); } void h_basic24() { basic(4, 3); }
  void h_kinds22() { kinds(2); } void h_kinds23() { kinds(3); } void h_kinds24() { kinds(4); }
  void h_flags23() { flags(3); } void h_flags24() { flags(4); } void h_zip23() { zipped(3); } void h_zip24() { zipped(4); }
  void h_long22() { lengths<V2>(); } void h_long23() { lengths<V3>(); } void h_long24() { lengths<V4>(); }
  void h_single22() { single<V2>(); } void h_single23() { single<V3>(); } void h_single24() { single<V4>(); }
  void h_edit22() { edited<V2>(); } void h_edit23() { edited<V3>(); } void h_edit24() { edited<V4>(); }
  void h_ext23() {
    typedef id3v2_3_tag::want_extended_header W;
    id3v2_3_tag t(vp_choice(0, 1, "padding"), false, vp_flag("crc") ? W::with_crc : W::present); bool u = vp_flag("unsync"); if (vp_flag("before")) t.size(u);
    t.push_back(V3::mk_other(any_text(1, "data"))); if (vp_flag("write")) save(t, u); if (vp_flag("more")) t.push_back(V3::mk_other(any_text(1, "data")));
    sizes(t, u); vp_cover("extended header and checksum");
  }
  void h_ext24() {
    sample s{4}; s.pad = vp_choice(0, 1, "padding"); s.flags = 0x40 | (vp_flag("footer") && !s.pad ? 0x10 : 0);
    int k = vp_choice(0, 7, "what"); bytes body; u8 f = 0;
    if (k & 1) { f |= 0x40; body += bytes(1, 0); }
    if (k & 2) { f |= 0x20; body += bytes(1, 5); bytes q = any_text(5, "checksum"); q[0] &= 0x0f; for (int i = 1; i < 5; ++i) q[i] &= 0x7f; body += q; }
    if (k & 4) { f |= 0x10; body += bytes(1, 1) + any_text(1, "restrictions"); }
    s.ext = ss(6 + body.size()) + bytes(1, 1) + bytes(1, (char)f) + body;
    s.frames.push_back(other_frame(4, 1)); check(s); vp_cover("ID3v2.4 extended header");
  }
  void h_foot24() { sample s{4}; s.flags = 0x10; s.frames.push_back(other_frame(4, 2)); check(s); vp_cover("footer"); }
  void h_padding24() {
    bool u = vp_flag("unsync"); id3v2_4_tag t(vp_choice(0, 2, "padding")); t.push_back(V4::mk_other(any_text(1, "data")));
    vp_cover("padding"); vp_assert(t.size(u) + 10 == save(t, u).size(), "the size reported for an ID3v2.4 tag counts its padding twice");
  }
}
