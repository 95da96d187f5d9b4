// P16: file-name template terms give the documented text for every text and option.
#include "p16.hh"
extern "C" void h_the(void) {
  str t = any_text(vp_choice(0, 8, "n"), "t"); the_xform x = thes[vp_choice(0, 2, "the")];
  str want = ref_the(t, x), got = do_the_xform(t, x);
  vp_assert(got == want, "a leading or trailing article is moved, and nothing else changes");
  if (want != t) vp_cover("moved article");
}
extern "C" void h_cap(void) {
  str t = any_text(vp_choice(0, 4, "n"), "t"); capitalization x = caps[vp_choice(0, 3, "cap")];
  str got = do_cap_xform(t, x), want = ref_cap(t, x);
  vp_assert(got.size() == want.size(), "capitalisation keeps the length");
  for (size_t i = 0; i < want.size(); ++i) vp_assert(got[i] == want[i], "letters are capitalised as asked for");
  if (t.empty()) vp_cover("empty text capitalised");
}
extern "C" void h_ws(void) {
  str t = any_text(vp_choice(0, 6, "n"), "t"); bool c = vp_flag("compress"); str rep = any_rep();
  vp_assert(do_ws_xform(t, c, rep) == ref_ws(t, c, rep), "each run of blanks is replaced or compressed as asked for");
  vp_cover("white space replaced");
}
extern "C" void h_encode(void) {
  str t = any_text(vp_choice(0, 3, "n"), "t"); output_encoding x = outs[vp_choice(0, 2, "out")];
  str want, got; bool ok = ref_encode(t, x, want), failed = false;
  try { got = encode(t, x); } catch (const std::exception &) { failed = true; }
  vp_assert(failed == !ok, "text is encoded unless the encoding lacks a character");
  if (ok) { vp_assert(got == want, "encoded text holds the same characters"); vp_cover("encoded"); } else vp_cover("not encodable");
}

// --- terms
static const all_source_preference prefs[] = {all_source_preference::prefer_id3v2, all_source_preference::prefer_id3v1, all_source_preference::id3v2_only, all_source_preference::id3v1_only};
static const v1_encoding v1s[] = {v1_encoding::automatic, v1_encoding::iso8859_1, v1_encoding::ascii, v1_encoding::utf_8};
static str ref_v1(const str &bytes, v1_encoding e, bool &ok) {
  str r; ok = true;
  if (e == v1_encoding::utf_8) { std::vector<uint32_t> c; ok = chars_of(bytes, c); r = bytes; }
  else for (char ch : bytes) { unsigned char c = ch; if (c > 127 && e == v1_encoding::ascii) ok = false; r += utf8_of(c); }
  trim(r); return r;
}
// what the preference picks; false: nothing to pick
static bool ref_source(const str *v1, bool v1ok, const str *v2, all_source_preference p, str &out, bool &bad) {
  bad = false;
  bool has1 = v1 && v1->size(), has2 = v2 && v2->size();
  auto one = [&] { if (!v1ok) { bad = true; return true; } if (!has1) return false; out = *v1; return true; };
  auto two = [&] { if (!has2) return false; out = *v2; return true; };
  switch (p) {
  case all_source_preference::prefer_id3v2: return two() || one();
  case all_source_preference::prefer_id3v1: return one() || two();
  case all_source_preference::id3v2_only: return two();
  default: return one();
  }
}
static void pad_to(str &s, size_t n) { s.resize(n, '\0'); }
static std::unique_ptr<id3v2_tag> tag2(int field, const str &text, int ver) {
  static const char *const id22[] = {"TAL", "TP1", "TCO", "TT2", "TEN", "TYE"}; static const char *const id23[] = {"TALB", "TPE1", "TCON", "TIT2", "TENC", "TYER"};
  str raw = raw_tag(ver, raw_frame(ver, ver == 2 ? id22[field] : id23[field], str(1, '\0') + text)); std::istringstream in(raw);
  if (ver == 2) return std::make_unique<id3v2_2_tag>(in); if (ver == 3) return std::make_unique<id3v2_3_tag>(in); return std::make_unique<id3v2_4_tag>(in);
}
static std::unique_ptr<id3v1_tag> tag1(int field, const str &text) {
  str title, artist, album, year; (field == 0 ? album : field == 1 ? artist : field == 3 ? title : year) = text;
  pad_to(title, 30); pad_to(artist, 30); pad_to(album, 30); pad_to(year, 4);
  str raw = "TAG" + title + artist + album + year + str(30, '\0') + char(255); std::istringstream in(raw); return std::make_unique<id3v1_tag>(in);
}
static track_data &track() { static std::istringstream in("abc"); static track_data t(in); return t; }

static void term_check(int field, int n1max, int n2max, bool xforms) {
  bool has1 = vp_flag("has1"), has2 = vp_flag("has2"); str t1, t2;
  std::unique_ptr<id3v1_tag> p1; std::unique_ptr<id3v2_tag> p2;
  if (has1) { int n = vp_choice(0, n1max, "n1"); t1 = any_text(n, "t1"); for (char c : t1) vp_assume(c); if (n > 1) vp_assume(!(t1[0] == '\xff' && t1[1] == '\xfe') && !(t1[0] == '\xfe' && t1[1] == '\xff')); p1 = tag1(field, t1); }
  if (has2) { int n = vp_choice(0, n2max, "n2"); t2 = any_text(n, "t2"); for (char c : t2) vp_assume(c > 0); if (n) vp_assume(t2[n - 1] != ' '); p2 = tag2(field, t2, 3); }
  all_source_preference p = prefs[vp_choice(0, 3, "pref")]; v1_encoding e = xforms ? v1_encoding::automatic : v1s[vp_choice(0, 3, "v1enc")];
  the_xform the = the_xform::nil; capitalization cap = capitalization::nil; bool cmp = false; str rep; output_encoding out = output_encoding::utf_8;
  if (xforms) { the = thes[vp_choice(0, 2, "the")]; cap = caps[vp_choice(0, 3, "cap")]; cmp = vp_flag("compress"); rep = any_rep(); }
  std::unique_ptr<term> q;
  switch (field) {
  case 0: q.reset(new album(p, e, the, cap, cmp, rep, out)); break;
  case 1: q.reset(new artist(p, e, the, cap, cmp, rep, out)); break;
  default: q.reset(new title(p, e, the, cap, cmp, rep, out)); break;
  }
  bool v1ok, bad; str v1 = ref_v1(t1, e, v1ok), src; if (!has1) v1ok = true;
  bool found = ref_source(has1 ? &v1 : 0, v1ok, has2 ? &t2 : 0, p, src, bad);
  str got; int how = 0;
  try { got = q->evaluate(file_info(), p2.get(), track(), p1.get()); } catch (const missing_source_text &) { how = 1; } catch (const std::exception &) { how = 2; }
  if (bad) { vp_assert(how == 2, "text that is not in the named encoding is reported"); vp_cover("undecodable"); return; }
  vp_assert((how == 1) == !found, "missing text is reported exactly when no permitted tag has it"); vp_assert(how != 2, "evaluation succeeds on valid text");
  if (!found) { vp_cover("missing"); return; }
  vp_assert(got == ref_ws(ref_cap(ref_the(src, the), cap), cmp, rep), "a term is the preferred tag's text with the transformations applied"); vp_cover("evaluated");
}
extern "C" void h_album(void) { term_check(0, 2, 2, false); }
extern "C" void h_artist(void) { term_check(1, 2, 2, false); }
extern "C" void h_title(void) { term_check(3, 2, 2, false); }
// several transformations together, on a text that begins and ends with the article
extern "C" void h_compose(void) {
  static const char *const head[] = {"the ", "The", "", "  "}; static const char *const tail[] = {", the", ",  The", "", " "};
  int a = vp_choice(0, 3, "head"), b = vp_choice(0, 3, "tail"); bool two = vp_flag("two");
  str t = head[a] + any_text(1, "m") + tail[b]; for (char c : t) vp_assume(c > 0); vp_assume(t.back() != ' ');
  the_xform the = thes[vp_choice(0, 2, "the")]; capitalization cap = caps[vp_choice(0, 3, "cap")]; bool cmp = vp_flag("compress"); str rep = any_rep();
  std::unique_ptr<id3v1_tag> p1; std::unique_ptr<id3v2_tag> p2; if (two) p2 = tag2(1, t, 4); else p1 = tag1(1, t);
  artist q(all_source_preference::prefer_id3v2, v1_encoding::automatic, the, cap, cmp, rep, output_encoding::utf_8);
  str got = q.evaluate(file_info(), p2.get(), track(), p1.get());
  vp_assert(got == ref_ws(ref_cap(ref_the(t, the), cap), cmp, rep), "transformations apply in order: article, letters, white space"); vp_cover("composed");
}
// the same for the encoder's name, which only ID3v2 has
extern "C" void h_encoded_by(void) {
  static const char *const head[] = {"the ", "", " "};
  str t = head[vp_choice(0, 2, "head")] + any_text(2, "m"); for (char c : t) vp_assume(c > 0); vp_assume(t.back() != ' ');
  the_xform the = thes[vp_choice(0, 2, "the")]; capitalization cap = caps[vp_choice(0, 3, "cap")]; bool cmp = vp_flag("compress"); str rep = any_rep(); bool has = vp_flag("has");
  std::unique_ptr<id3v2_tag> p2 = has ? tag2(4, t, vp_choice(2, 4, "ver")) : nullptr;
  encoded_by q(the, cap, cmp, rep, output_encoding::ascii);
  str got; bool missing = false; try { got = q.evaluate(file_info(), p2.get(), track(), 0); } catch (const missing_source_text &) { missing = true; }
  vp_assert(missing == !has, "an absent encoder's name is reported");
  if (has) { str want = ref_ws(ref_cap(ref_the(t, the), cap), cmp, rep); trim(want); vp_assert(got == want, "the encoder's name has the transformations applied"); vp_cover("encoded by"); }
}
extern "C" void h_genre(void) {
  bool has2 = vp_flag("has2"); str t2; std::unique_ptr<id3v2_tag> p2;
  if (has2) { t2 = any_text(1, "t2"); vp_assume(t2[0] > 32); p2 = tag2(2, t2, 3); }
  unsigned char g = vp_any<unsigned char>("g"); str raw = "TAG" + str(124, '\0') + char(g); std::istringstream in(raw); id3v1_tag v1(in);
  boost::optional<str> name = text_for_genre(g);
  all_source_preference p = prefs[vp_choice(0, 3, "pref")];
  content_type q(p, v1_encoding::ascii, the_xform::nil, capitalization::nil);
  str src; bool bad, found = ref_source(name ? &*name : 0, true, has2 ? &t2 : 0, p, src, bad);
  str got; bool missing = false; try { got = q.evaluate(file_info(), p2.get(), track(), &v1); } catch (const missing_source_text &) { missing = true; }
  vp_assert(missing == !found, "a genre is missing exactly when no permitted tag has one"); if (found) { vp_assert(got == src, "a genre is the name of its number or the tag's own text"); vp_cover("genre"); }
}
extern "C" void h_year(void) {
  bool has1 = vp_flag("has1"), has2 = vp_flag("has2"), two = vp_flag("two"); str t1, t2; std::unique_ptr<id3v1_tag> p1; std::unique_ptr<id3v2_tag> p2;
  if (has1) { t1 = any_text(vp_choice(0, 4, "n1"), "t1"); for (char c : t1) vp_assume(c > ' '); p1 = tag1(5, t1); }
  if (has2) { t2 = any_text(vp_choice(0, 5, "n2"), "t2"); for (char c : t2) vp_assume(c > ' '); p2 = tag2(5, t2, vp_choice(2, 3, "ver")); }
  str src = t2.size() ? t2 : t1; year q(two ? year_format::two_digits : year_format::four_digits);
  str got; bool missing = false; try { got = q.evaluate(file_info(), p2.get(), track(), p1.get()); } catch (const missing_source_text &) { missing = true; }
  vp_assert(missing == src.empty(), "a year is missing exactly when no tag has one");
  if (!missing) { vp_assert(got == (two && src.size() > 2 ? str(src, src.size() - 2) : src), "a year is given in full or by its last two digits"); vp_cover("year"); }
}
extern "C" void h_md5(void) {
  str body = any_text(vp_choice(0, 2, "n"), "b"); std::istringstream in(body); track_data t(in);
  unsigned char d[16]; t.get_md5(d); bool hex = vp_flag("hex"), upper = vp_flag("upper");
  md5 q(hex ? base::hex : base::decimal, upper ? hex_case::upper : hex_case::lower); str got = q.evaluate(file_info(), 0, t, 0), want;
  for (unsigned char c : d) {
    if (hex) { const char *dig = upper ? "0123456789ABCDEF" : "0123456789abcdef"; want += dig[c >> 4]; want += dig[c & 15]; }
    else { if (c > 99) want += char('0' + c / 100); if (c > 9) want += char('0' + c / 10 % 10); want += char('0' + c % 10); }
  }
  vp_assert(got.size() == want.size(), "a checksum has its digits"); for (size_t i = 0; i < want.size(); ++i) vp_assert(got[i] == want[i], "a checksum is printed in the base and case asked for"); vp_cover("checksum");
}
// an optional part is dropped when something in it is missing and kept otherwise
extern "C" void h_optional(void) {
  bool has = vp_flag("has"); str t; std::unique_ptr<id3v2_tag> p2; if (has) { t = any_text(1, "t"); vp_assume(t[0] > ' '); p2 = tag2(1, t, 4); }
  str a = any_text(1, "a"), b = any_text(1, "b");
  std::vector<term *> v; v.push_back(new text_term(a)); v.push_back(new artist(all_source_preference::prefer_id3v2, v1_encoding::automatic, the_xform::nil, capitalization::nil)); v.push_back(new text_term(b)); subclause q(&v);
  str got = q.evaluate(file_info(), p2.get(), track(), 0);
  vp_assert(got == (has ? a + t + b : str()), "an optional part appears whole or not at all"); if (has) vp_cover("optional kept"); else vp_cover("optional dropped");
}
// a byte-order mark says what the ID3v1 text is encoded in
extern "C" void h_bom(void) {
  static const char *const bom[] = {"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"}; static const char *const mark = "\xef\xbb\xbf";
  int k = vp_choice(0, 2, "bom"); unsigned hi = vp_choice(4, 5, "hi"), lo = vp_any<unsigned char>("lo"); vp_assume(lo != 0); uint32_t c = hi * 256 + lo; str t(bom[k]);
  if (k == 0) t += utf8_of(c); else if (k == 1) { t += char(hi); t += char(lo); } else { t += char(lo); t += char(hi); }
  auto p1 = tag1(0, t); album q(all_source_preference::prefer_id3v2, v1_encoding::automatic, the_xform::nil, capitalization::nil);
  str got = q.evaluate(file_info(), 0, track(), p1.get()); if (!got.compare(0, 3, mark)) got.erase(0, 3);
  vp_assert(got == utf8_of(c), "marked ID3v1 text is decoded accordingly"); vp_cover("marked text");
}
