// P02, continued: tags made from scratch, extended headers, footers, large padding.
#include "edit.hh"
template <class V> struct found { std::vector<const typename V::base *> all; };
template <class V> static typename V::tag reread(const typename V::tag &t, bool u) {
  bytes w = save(t, u); decode(w);
  std::istringstream is(w); typename V::tag r(is); vp_assert((bytes::size_type)is.tellg() == w.size(), "reading a tag back consumes what was written");
  return r;
}
template <class V> static const typename V::base &only(const typename V::tag &t, const char *id) {
  vp_assert(t.num_frames() == 1 && t.has_frame(typename V::id(id)) == 1, "the frame is read back");
  return t.get_frame(typename V::id(id));
}
template <class V> static void made() {
  int pad = vp_choice(0, 1, "padding"); bool u = vp_flag("unsync");
  typename V::tag t(pad);
  switch (vp_choice(0, 6, "kind")) {
  case 0: {
    std::string a = word(2, "title"), b = word(1, "artist"); t.title(a); t.artist(b);
    auto r = reread<V>(t, u); vp_assert(r.has_title() == 1 && r.has_artist() == 1 && r.num_frames() == 2, "text frames are read back");
    vp_assert(r.title() == a && r.artist() == b, "text read back differs"); vp_cover("text"); break; }
  case 1: {
    std::string a = word(2, "text"), d = word(vp_choice(0, 1, "n"), "description");
    const use_unicode us[] = {use_unicode::no, use_unicode::yes, use_unicode::with_bom}; t.add_comment(a, language::eng, encoding::UTF_8, us[vp_choice(0, 2, "unicode")], d);
    auto r = reread<V>(t, u); auto &c = dynamic_cast<const typename V::comment &>(only<V>(r, V::com()));
    vp_assert(c.template text<std::string>() == a && c.template description<std::string>() == d, "comment read back differs"); vp_cover("comment");
    unsigned char l[3]; auto lang = c.lang(); (void)lang; break; }
  case 2: {
    std::string a = word(2, "text"), d = word(vp_choice(0, 1, "n"), "description");
    const use_unicode us[] = {use_unicode::no, use_unicode::yes, use_unicode::with_bom}; t.add_user_defined_text(a, encoding::UTF_8, us[vp_choice(0, 2, "unicode")], d);
    auto r = reread<V>(t, u); auto &c = dynamic_cast<const typename V::usertext &>(only<V>(r, V::txx()));
    vp_assert(c.template text<std::string>() == a && c.template description<std::string>() == d, "user-defined text read back differs"); vp_cover("user text"); break; }
  case 3: {
    unsigned n = vp_any<unsigned>("count"); t.push_back(V::mk_count(n));
    auto r = reread<V>(t, u); vp_assert(r.has_play_count() == 1 && r.play_count() == n, "play count read back differs"); vp_cover("count"); break; }
  case 4: {
    unsigned n = vp_any<unsigned>("count"); u8 v = vp_any<u8>("rating"); std::string m = word(1, "mail"); t.push_back(V::mk_rating(m, v, n));
    auto r = reread<V>(t, u); auto &c = dynamic_cast<const typename V::rating &>(only<V>(r, V::pop()));
    vp_assert(c.rating() == v && c.count() == n, "rating read back differs"); bytes e; c.emailb(std::back_inserter(e)); vp_assert(e == m, "who rated, read back, differs"); vp_cover("rating"); break; }
  case 5: {
    std::string k = word(1, "key"), v = word(1, "value"); vp_assume(k[0] != '%' && k[0] != '=' && k[0] != '&' && k[0] != '+' && k[0] != ',' && v[0] != '%' && v[0] != '=' && v[0] != '&' && v[0] != '+' && v[0] != ',');
    typename V::cloud c0 = V::mk_cloud("o", k + "=" + v); t.push_back(c0);
    auto r = reread<V>(t, u); auto &c = dynamic_cast<const typename V::cloud &>(only<V>(r, V::ver == 2 ? "XTG" : "XTAG"));
    vp_assert(c.owner() == "o" && c.has_key(k) && c.has_value(k, v), "tag cloud read back differs"); vp_cover("cloud"); break; }
  case 6: {
    bytes b = any_text(2, "data"); t.push_back(V::mk_other(b)); t.title("x");
    auto r = reread<V>(t, u); vp_assert(r.num_frames() == 2 && r.title() == "x", "two frames are read back");
    bytes e; dynamic_cast<const typename V::other &>(r.get_frame(typename V::id(V::unk()))).data(std::back_inserter(e)); vp_assert(e == b, "unknown frame read back differs"); vp_cover("other"); break; }
  }
}
extern "C" {
  void h_new22() { made<V2>(); } void h_new23() { made<V3>(); } void h_new24() { made<V4>(); }
  void h_attr23() {
    typedef id3v2_3_tag::want_extended_header W; const W ws[] = {W::none, W::present, W::with_crc};
    int pad = vp_choice(0, 2, "padding"), k = vp_choice(0, 2, "ext"); bool fexp = vp_flag("experimental"), later = vp_flag("later");
    id3v2_3_tag t(later ? 7 : pad, fexp, ws[k]); t.push_back(V3::mk_other(any_text(1, "data"))); if (later) t.padding(pad);
    bool u = vp_flag("unsync"); bytes w = save(t, u); content c = decode(w);
    vp_assert(c.pad == pad && c.frames.size() == 1, "padding and frames of a new tag");
    vp_assert((bool)(c.flags & 0x20) == fexp && (bool)(c.flags & 0x40) == (k > 0), "flags of a new tag");
    if (k) { vp_assert((int)c.ext.size() == (k == 2 ? 14 : 10) && (u8)c.ext[4] == (k == 2 ? 0x80 : 0) && c.ext[5] == 0, "extended header"); vp_assert((int)rd(c.ext, 6, 4) == pad, "the extended header declares the padding"); }
    std::istringstream is(w); id3v2_3_tag r(is);
    vp_assert(r.experimental() == fexp && r.has_extended_header() == (k > 0) && (int)r.padding() == pad && r.num_frames() == 1, "a new tag's attributes, read back, differ");
    if (k) vp_assert((int)r.extended_header().padding_size() == pad && r.extended_header().has_crc() == (k == 2), "an extended header, read back, differs");
    vp_cover("new ID3v2.3 tag");
  }
  void h_attr24() {
    int pad = vp_choice(0, 2, "padding"); bool fexp = vp_flag("experimental");
    id3v2_4_tag t(pad, fexp); t.push_back(V4::mk_other(any_text(1, "data")));
    bool u = vp_flag("unsync"); bytes w = save(t, u); content c = decode(w);
    vp_assert(c.pad == pad && c.frames.size() == 1 && (c.flags & 0x7f) == (fexp ? 0x20 : 0), "attributes of a new tag");
    auto r = load(w); vp_assert((r->flags() & 0x20) == (fexp ? 0x20 : 0) && (int)r->padding() == pad && r->num_frames() == 1, "a new tag's attributes, read back, differ");
    vp_cover("new ID3v2.4 tag");
  }
  // an extended header as read is written as it was, but for the checksum
  void h_ext23() {
    sample s{3}; s.pad = vp_choice(0, 1, "padding"); s.flags = 0x40 | (vp_flag("experimental") ? 0x20 : 0); bool crc = vp_flag("crc"), u = vp_flag("unsync");
    s.ext = be(crc ? 10 : 6, 4) + bytes(1, (char)(crc ? 0x80 : 0)) + bytes(1, 0) + be(0, 2) + any_text(2, "declared padding") + (crc ? any_text(4, "checksum") : bytes());
    s.frames.push_back(other_frame(3, 1)); encode(s);
    auto t = load(s); content c = decode(save(*t, u));
    vp_assert(c.ext.size() == s.ext.size() && c.ext.compare(0, 10, s.ext, 0, 10) == 0, "the extended header changed");
    vp_assert((c.flags & 0x7f) == s.flags && c.pad == s.pad && c.frames.size() == 1 && c.frames[0].body == s.frames[0].body, "flags, padding or frames changed");
    vp_cover("extended header");
  }
  void h_ext24() {
    sample s{4}; s.pad = vp_choice(0, 1, "padding"); s.flags = 0x40 | (vp_flag("footer") && !s.pad ? 0x10 : 0); bool u = vp_flag("unsync");
    int k = vp_choice(0, 7, "what"); bytes body; u8 f = 0;
    if (k & 1) { f |= 0x40; body += bytes(1, 0); }
    if (k & 2) { f |= 0x20; body += bytes(1, 5); bytes q = any_text(5, "checksum"); q[0] &= 0x0f; for (int i = 1; i < 5; ++i) q[i] &= 0x7f; body += q; }
    if (k & 4) { f |= 0x10; body += bytes(1, 1) + any_text(1, "restrictions"); }
    s.ext = ss(6 + body.size()) + bytes(1, 1) + bytes(1, (char)f) + body;
    s.frames.push_back(other_frame(4, 1)); encode(s);
    auto t = load(s); bytes w = save(*t, u); content c = decode(w);
    vp_assert(c.end == w.size(), "nothing is written after the tag");
    vp_assert(c.ext.size() == s.ext.size(), "the extended header's size changed");
    for (std::size_t i = 0, at = (k & 2) ? 6 + (k & 1) + 1 : 99; i < c.ext.size(); ++i) if (i < at || i >= at + 5) vp_assert(c.ext[i] == s.ext[i], "the extended header changed");
    vp_assert((c.flags & 0x7f) == s.flags && c.pad == s.pad && c.frames.size() == 1 && c.frames[0].body == s.frames[0].body, "flags, padding or frames changed");
    vp_cover("ID3v2.4 extended header"); if (s.flags & 0x10) vp_cover("footer");
  }
  void h_pads() {
    int ver = vp_choice(2, 4, "version"); static const int ps[] = {127, 128, 255, 256, 257, 511, 512, 513, 1024, 1025, 2049, 4097}; bool u = vp_flag("unsync");
    sample s{ver}; s.pad = vp_choice(0, 1, "as read") ? 3 : 0; s.frames.push_back(other_frame(ver, 1)); encode(s);
    auto t = load(s); int n = ps[vp_choice(0, 11, "padding")]; t->padding(n); content c = decode(save(*t, u)); vp_assert(c.pad == n, "padding as set");
    vp_cover("large padding");
  }
}
