// P06: looking things up agrees with a scan of the frames after any edits.
#include "items.hh"
// a start of two or three frames, then edits
template <class V> static void history(int ops, int start, int kinds) {
  typename V::tag t; items m;
  for (int i = 0; i < start; ++i) edit<V>(t, m, 0, kinds);
  for (int i = 0; i < ops; ++i) edit<V>(t, m, vp_choice(0, 12, "edit"), kinds);
  check<V>(t, m); vp_cover("lookups compared");
}
template <class V> static void one() { history<V>(1, 2, KINDS); }
template <class V> static void two() { history<V>(2, 1, 4); }
template <class V> static void three() { history<V>(3, 0, 3); }
// edits to a tag that was read
template <class V> static void readin() {
  typename V::tag t0; items m; for (int i = 0; i < 2; ++i) edit<V>(t0, m, 0, KINDS);
  auto p = load(save(t0, false)); typename V::tag &t = dynamic_cast<typename V::tag &>(*p); check<V>(t, m);
  edit<V>(t, m, vp_choice(0, 12, "edit"), 4); check<V>(t, m);
}
// each named field and each text frame identifier
template <class V> static void names() {
  typename V::tag t; std::string v[8]; bool have[8] = {}; typedef id3v2_text_frames X;
  static const X x[] = {X::talb, X::tpe1, X::tcon, X::tenc, X::tlan, X::tit2, X::trck, X::tyer};
  auto set = [&](int i, const std::string &s) { switch (i) { case 0: t.album(s); break; case 1: t.artist(s); break; case 2: t.content_type(s); break; case 3: t.encoded_by(s); break; case 4: t.languages(s); break; case 5: t.title(s); break; case 6: t.track(s); break; case 7: t.year(s); break; } };
  auto get = [&](int i) { switch (i) { case 0: return t.album(); case 1: return t.artist(); case 2: return t.content_type(); case 3: return t.encoded_by(); case 4: return t.languages(); case 5: return t.title(); case 6: return t.track(); default: return t.year(); } };
  auto has = [&](int i) { switch (i) { case 0: return t.has_album(); case 1: return t.has_artist(); case 2: return t.has_content_type(); case 3: return t.has_encoded_by(); case 4: return t.has_languages(); case 5: return t.has_title(); case 6: return t.has_track(); default: return t.has_year(); } };
  for (int s = 0; s < 2; ++s) { int i = vp_choice(0, 7, "field"); v[i] = word(1, "val"); have[i] = true; if (vp_flag("by identifier")) t.text(x[i], v[i]); else set(i, v[i]); }
  if (vp_flag("delete")) { int i = vp_choice(0, 7, "field"); t.delete_frame(x[i]); have[i] = false; }
  std::size_t n = 0;
  for (int i = 0; i < 8; ++i) {
    n += have[i]; vp_assert(has(i) == have[i] && t.has_frame(typename V::id(x[i])) == (std::size_t)have[i], "presence of a named field");
    if (have[i]) vp_assert(get(i) == v[i] && t.text(x[i]) == v[i], "a named field is not what was set");
    else { bool threw = false; try { get(i); } catch (const std::exception &) { threw = true; } vp_assert(threw, "a named field that is not there"); }
  }
  vp_assert(t.num_frames() == n, "one frame for each named field"); vp_cover("named fields");
}
template <class V> static void idents() {
  typename V::tag t; id3v2_text_frames x = (id3v2_text_frames)vp_choice(0, (int)id3v2_text_frames::tyer, "identifier"); std::string a = word(1, "val"), b = word(1, "val");
  // in the order of the enumeration
  static const char *const i3[] = {"TAL", "TBP", "TCM", "TCO", "TCR", "TDA", "TDY", "TEN", "TXT", "TFT", "TIM", "TT1", "TT2", "TT3", "TKE", "TLA", "TLE", "TMT", "TOT", "TOF", "TOL", "TOA", "TOR", "", "TP1", "TP2", "TP3", "TP4", "TPA", "TPB", "TRK", "TRD", "", "", "TSI", "TRC", "TSS", "TYE"};
  static const char *const i4[] = {"TALB", "TBPM", "TCOM", "TCON", "TCOP", "TDAT", "TDLY", "TENC", "TEXT", "TFLT", "TIME", "TIT1", "TIT2", "TIT3", "TKEY", "TLAN", "TLEN", "TMED", "TOAL", "TOFN", "TOLY", "TOPE", "TORY", "TOWN", "TPE1", "TPE2", "TPE3", "TPE4", "TPOS", "TPUB", "TRCK", "TRDA", "TRSN", "TRSO", "TSIZ", "TSRC", "TSSE", "TYER"};
  std::string want = V::ver == 2 ? i3[(int)x] : i4[(int)x];
  try { t.text(x, a); } catch (const std::exception &) { vp_assert(want.empty() && t.num_frames() == 0, "a text frame is refused"); vp_cover("no such frame"); return; }
  t.push_back(V::mk_other("z")); t.text(x, b); vp_assert(t.num_frames() == 2 && t.text(x) == b, "a text frame is not what was set");
  const typename V::base &f = *t.cbegin(); vp_assert(f.id() == typename V::id(want.c_str()) && t.has_frame(f.id()) == 1, "the identifier of a text frame");
  auto p = load(save(t, false)); vp_assert(p->text(x) == b, "a text frame is not what was set, once read back");
  t.delete_frame(x); vp_assert(t.num_frames() == 1 && !t.has_frame(typename V::id(x)), "a text frame was not deleted"); vp_cover("text frame by identifier");
}
#define ALL(n) extern "C" void h_##n##22() { n<V2>(); } extern "C" void h_##n##23() { n<V3>(); } extern "C" void h_##n##24() { n<V4>(); }
ALL(one) ALL(two) ALL(three) ALL(readin) ALL(names) ALL(idents)
