// P11: CSV and tab-delimited output keeps one field per value.
#include "tags.hh"
#include <scribbu/csv-pprinter.hh>
#include <scribbu/tdf-pprinter.hh>
using namespace scribbu;
using std::string;
typedef std::vector<string> row;
static const auto L1 = boost::optional<encoding>(encoding::ISO_8859_1);

// --- reference reader (RFC 4180 with a given separator): false when the record is malformed
static bool split(const string &t, char sep, row &r) {
  size_t i = 0; for (;;) {
    string f;
    if (i < t.size() && t[i] == '"') {
      ++i; for (;;) { if (i >= t.size()) return false; if (t[i] == '"') { if (i + 1 < t.size() && t[i + 1] == '"') { f += '"'; i += 2; continue; } ++i; break; } f += t[i++]; }
      if (i < t.size() && t[i] != sep) return false;
    } else while (i < t.size() && t[i] != sep) { if (t[i] == '\n' || t[i] == '\r') return false; f += t[i++]; }
    r.push_back(f); if (i >= t.size()) return true; ++i;
  }
}
static row split_tab(const string &t, char sep) { row r(1); for (char c : t) if (c == sep) r.push_back(string()); else r.back() += c; return r; }
// Texts with a double quote and nothing else to quote for are printed bare (the unit tests
// demand it); see KNOWN_FINDINGS and h_quote. All other entries leave such texts out.
static bool bare_quote(const string &s, char sep) { bool q = false; for (char c : s) { if (c == sep || c == '\n' || c == '\r') return false; if (c == '"') q = true; } return q; }
struct style { bool tab; char sep; size_t ncomm; };
static const char seps[] = {',', ';', '\t', '|', '!', '~', '\''};
static style any_style(bool all = false) {
  style s; s.tab = vp_flag("tab"); s.ncomm = 4;
  if (s.tab) s.sep = vp_flag("ascii") ? 0x1f : 0x09; else if (all) s.sep = (char)vp_any<unsigned char>("sep"); else s.sep = seps[vp_choice(0, 6, "sep")];
  return s;
}
template <class T> static bool print(const style &s, const T &x, string &out) {
  std::ostringstream os; try {
  if (s.tab) os << print_as_tdf(s.ncomm, L1, boost::none, s.sep == 0x1f) << x; else os << print_as_csv(s.ncomm, L1, boost::none, s.sep) << x;
  out = os.str(); vp_defined(out.data(), out.size()); return (bool)os; } catch (const std::exception &) { return false; }
}
static void check(const style &s, const string &out, const row &want) {
  for (auto &w : want) { if (!s.tab) vp_assume(!bare_quote(w, s.sep)); else for (char c : w) vp_assume(c != s.sep); }   // tab-delimited: such values are not allowed
  row r; if (s.tab) r = split_tab(out, s.sep); else vp_assert(split(out, s.sep, r), "not a CSV record");
  vp_assert(r.size() == want.size(), "number of fields"); for (size_t i = 0; i < want.size(); ++i) vp_assert(r[i] == want[i], "field differs"); vp_cover("record");
}
static string trimmed(const string &s) { return convert_encoding<string>(s.c_str(), s.size(), encoding::UTF_8, encoding::UTF_8); }   // converted text loses trailing blanks
static string num(size_t n) { return std::to_string(n); }
static string hexes(const std::vector<unsigned char> &v) { string r; for (unsigned char c : v) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r; }
// --- the text itself
extern "C" void h_escape() {
  style s; s.tab = false; s.sep = (char)vp_any<unsigned char>("sep"); unsigned char c = s.sep; vp_assume(c == 9 || (c >= 0x21 && c <= 0x2f) || (c >= 0x3a && c <= 0x40) || (c >= 0x5b && c <= 0x60) || (c >= 0x7b && c <= 0x7e)); vp_assume(c != '"');
  bytes t = any_text(vp_choice(0, 4, "n"), "text"); vp_assume(!bare_quote(t, s.sep)); string o = csv_pprinter::escape(t, s.sep) + s.sep + csv_pprinter::escape("x", s.sep);
  row r; vp_assert(split(o, s.sep, r), "not a CSV record"); vp_assert(r.size() == 2 && r[0] == t && r[1] == "x", "field differs"); vp_cover("escape");
}
extern "C" void h_quote() {               // known finding
  bytes t = any_text(vp_choice(1, 3, "n"), "text"); vp_assume(bare_quote(t, ',')); row r; bool ok = split(csv_pprinter::escape(t, ',') + ",x", ',', r);
  vp_assert(ok && r.size() == 2 && r[0] == t, "text with double quotes but no separator or line break is not quoted");
}
extern "C" void h_sep() {                 // separators that cannot work are refused
  char c = (char)vp_any<unsigned char>("sep"); bool alnum = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); bool bad = c < 0x20 ? c != 9 : c == ' ' || c == '"' || c == 0x7f || alnum;
  try { csv_pprinter p(4, L1, boost::none, c); vp_assert(!bad, "bad separator accepted"); vp_cover("separator"); } catch (const csv_pprinter::bad_separator &) { vp_assert(bad, "separator refused"); vp_cover("separator refused"); }
}
// --- frames
template <class F> static string id_of(const F &f) { std::ostringstream s; s << f.id(); return s.str(); }
template <class C> static row comment_row(const C *p) { string l; char a, b, c; std::tie(a, b, c) = p->lang(); l += a; l += b; l += c; return {l, p->template description<string>(), p->template text<string>()}; }
template <class P> static row popm_row(const P *p, encoding e) { std::vector<unsigned char> v; p->counterb(std::back_inserter(v)); return {p->template email<string>(encoding::UTF_8, on_no_encoding::fail, e), num(p->rating()), hexes(v)}; }
template <class P> static row id_row(const P *p) { std::vector<unsigned char> v; p->idb(std::back_inserter(v)); return {p->template owner<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1), "0x" + hexes(v)}; }
template <class TXT, class UF, class UDT, class COMMENT, class COUNT, class POPU, class CLOUD, class F> static bool common(const F &f, row &r, encoding mail) {
  if (auto p = dynamic_cast<const TXT *>(&f)) { r = {p->template as_str<string>()}; vp_cover("text frame"); }
  else if (auto p = dynamic_cast<const UF *>(&f)) { r = id_row(p); vp_cover("file id"); }
  else if (auto p = dynamic_cast<const UDT *>(&f)) { r = {num(p->unicode()), p->template description<string>(), p->template text<string>()}; vp_cover("described text"); }
  else if (auto p = dynamic_cast<const COMMENT *>(&f)) { r = comment_row(p); vp_cover("comment"); }
  else if (auto p = dynamic_cast<const COUNT *>(&f)) { r = {num((unsigned)p->count())}; vp_cover("count"); }
  else if (auto p = dynamic_cast<const POPU *>(&f)) { r = popm_row(p, mail); vp_cover("popularity"); }
  else if (auto p = dynamic_cast<const CLOUD *>(&f)) { r = {trimmed(p->owner()), p->urlencoded()}; vp_cover("cloud"); }
  else return false;
  return true;
}
template <class E, class P, class F> static row others(const F &f) {
  if (auto p = dynamic_cast<const E *>(&f)) { std::vector<unsigned char> v; p->datab(std::back_inserter(v)); vp_cover("encryption"); return {p->template email<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1), num(p->method_symbol()), "0x" + hexes(v)}; }
  if (auto p = dynamic_cast<const P *>(&f)) { vp_cover("private"); return {p->template email<string>()}; }
  return {id_of(f)};
}
static row want(const id3v2_2_frame &f, bool tab) { row r; if (common<id3v2_2_text_frame, UFI, TXX, COM, CNT, POP, XTG>(f, r, tab ? encoding::ISO_8859_1 : encoding::UTF_8)) return r; return {id_of(f)}; }
static row want(const id3v2_3_frame &f, bool) { row r; if (common<id3v2_3_text_frame, UFID, TXXX, COMM, PCNT, POPM, XTAG>(f, r, encoding::ISO_8859_1)) return r; return others<ENCR, PRIV>(f); }
static row want(const id3v2_4_frame &f, bool) { row r; if (common<id3v2_4_text_frame, UFID_2_4, TXXX_2_4, COMM_2_4, PCNT_2_4, POPM_2_4, XTAG_2_4>(f, r, encoding::ISO_8859_1)) return r; return others<ENCR_2_4, PRIV_2_4>(f); }
template <class T, class F> static void each_frame(const style &s, const bytes &b) {
  std::istringstream is(b); std::unique_ptr<T> t; try { t.reset(new T(is)); } catch (const std::exception &) { return; }
  string out; for (auto &&x : *t) {
    const F &f = x; row w; bool readable = true; try { w = want(f, s.tab); } catch (const std::exception &) { readable = false; }   // malformed text
    bool ok = print(s, f, out); if (readable) { vp_assert(ok, "a frame whose values can be read cannot be printed"); check(s, out, w); } else { vp_assert(!ok, "malformed text printed"); vp_cover("failure reported"); }
  }
}
static const char *name(int ver, int kind) {
  static const char *n2[] = {"TT2", "UFI", "TXX", "COM", "CNT", "POP", "XTG", "ZZZ", "ZZZ", "ZZZ"}, *n3[] = {"TIT2", "UFID", "TXXX", "COMM", "PCNT", "POPM", "XTAG", "ENCR", "PRIV", "ZZZZ"};
  return ver == 2 ? n2[kind] : n3[kind];
}
static bytes body(int kind, int n) {
  bytes t = any_text(n, "text");
  switch (kind) {
    case 0: return nul() + t;
    case 1: return vp_flag("id") ? bytes("o") + nul() + t : t + nul() + "xy";
    case 2: return vp_flag("dsc") ? nul() + t + nul() + "text" : nul() + "d" + nul() + t;
    case 3: switch (vp_choice(0, 2, "part")) { case 0: return nul() + "eng" + t + nul() + "text"; case 1: return nul() + "eng" + "d" + nul() + t; default: return nul() + any_text(3, "lang") + "d" + nul() + "t"; }
    case 4: return bytes(2, 0) + any_text(2, "count");
    case 5: return t + nul() + any_text(1, "rating") + bytes(2, 0) + any_text(2, "count");
    case 6: for (char c : t) vp_assume(c); return vp_flag("own") ? raw_cloud(t, raw_key("a", {"b", "d"}) + raw_key("c", {})) : raw_cloud("o", raw_key("a", {"q", t}));
    case 7: return vp_flag("data") ? bytes("o") + nul() + "\x05" + t : t + nul() + any_text(1, "method") + "da";
    case 8: return t + nul() + "data";
    default: return t;
  }
}
template <int VER, class T, class F> static void frames() { style s; s.ncomm = 4; s.tab = vp_flag("tab"); s.sep = s.tab ? (vp_flag("ascii") ? 0x1f : 9) : (vp_flag("semi") ? ';' : ','); int kind = vp_choice(0, VER == 2 ? 7 : 9, "kind"); each_frame<T, F>(s, raw_tag(VER, raw_frame(VER, name(VER, kind), body(kind, vp_choice(0, 2, "n"))))); }
extern "C" void h_frame22() { frames<2, id3v2_2_tag, id3v2_2_frame>(); }
extern "C" void h_frame23() { frames<3, id3v2_3_tag, id3v2_3_frame>(); }
extern "C" void h_frame24() { frames<4, id3v2_4_tag, id3v2_4_frame>(); }
extern "C" void h_id() {                  // frames nobody knows, any name
  int ver = vp_choice(2, 4, "ver"); bytes id = any_text(ver == 2 ? 3 : 4, "id"); vp_assume(id[0] == 'Z' && id[1] == 'Z'); style s = any_style(); bytes b = raw_tag(ver, raw_frame(ver, id, "abc"));
  if (ver == 2) each_frame<id3v2_2_tag, id3v2_2_frame>(s, b); else if (ver == 3) each_frame<id3v2_3_tag, id3v2_3_frame>(s, b); else each_frame<id3v2_4_tag, id3v2_4_frame>(s, b);
}
// --- whole tags: five numbers, seven texts, play counts, comments
static const char *const cols2[] = {"TP1", "TT2", "TAL", "TCO", "TEN", "TYE", "TLA"}, *const cols3[] = {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"};
template <int VER, class T> static void tag() {
  style s; s.tab = vp_flag("tab"); s.sep = s.tab ? (vp_flag("ascii") ? 0x1f : 9) : vp_flag("bar") ? '|' : ','; s.ncomm = vp_choice(0, 2, "ncomm"); const char *const *cols = VER == 2 ? cols2 : cols3; row w(7); row comments; bytes f; int ncount = 0; unsigned count = 0;
  bytes t = any_text(vp_choice(0, 2, "n"), "text"); for (unsigned char c : t) vp_assume(c && c != ' ' && c < 0x80);
  int what = vp_choice(0, 3, "what");
  if (what == 0) { int k = vp_choice(0, 6, "column"); if (VER == 2) vp_assume(k != 5); /* the year of ID3v2.2 tags: h_year22 */ f = raw_frame(VER, cols[k], nul() + t); w[k] = t; }
  else if (what == 1) { f = raw_frame(VER, cols[0], nul() + t) + raw_frame(VER, cols[6], nul() + "z"); w[0] = t; w[6] = "z"; }
  else if (what == 2) { ncount = vp_choice(1, 2, "counts"); for (int i = 0; i < ncount; ++i) { bytes c = bytes(3, 0) + any_text(1, "count"); count = (unsigned char)c[3]; f += raw_frame(VER, VER == 2 ? "CNT" : "PCNT", c); } }
  else { int k = vp_choice(1, 3, "comments"); for (int i = 0; i < k; ++i) { bytes x = i ? bytes(1, 'a' + i) : t; comments.push_back(x); f += raw_frame(VER, VER == 2 ? "COM" : "COMM", nul() + "eng" + bytes(1, 'd' + i) + nul() + x); } }
  std::istringstream is(raw_tag(VER, f, 3)); T g(is); string out; vp_assert(print(s, g, out), "tag not printed");
  row r = {num(VER), "0", num(g.size()), "0x00", "0"}; r.insert(r.end(), w.begin(), w.end()); r.push_back(num(ncount)); r.push_back(ncount == 1 ? num(count) : ncount ? "*" : ""); r.push_back(num(comments.size()));
  for (size_t i = 0; i < s.ncomm; ++i) r.push_back(i < comments.size() ? comments[i] : string());
  check(s, out, r); vp_cover("tag");
}
extern "C" void h_tag22() { tag<2, id3v2_2_tag>(); }
extern "C" void h_tag23() { tag<3, id3v2_3_tag>(); }
extern "C" void h_tag24() { tag<4, id3v2_4_tag>(); }
extern "C" void h_year22() {              // known finding
  style s; s.tab = vp_flag("tab"); s.sep = s.tab ? 9 : ','; s.ncomm = 1; unsigned char c = vp_any<unsigned char>("digit"); vp_assume(c >= '0' && c <= '9'); bytes y = "199" + bytes(1, c);
  std::istringstream is(raw_tag(2, raw_frame(2, "TYE", nul() + y))); id3v2_2_tag g(is); string out; vp_assert(print(s, g, out), "tag not printed"); row r; if (s.tab) r = split_tab(out, s.sep); else vp_assert(split(out, s.sep, r), "not a CSV record");
  vp_assert(r.size() > 10 && r[10] == y, "the year of an ID3v2.2 tag is left out");
}
extern "C" void h_v1() {
  static const int at[] = {33, 3, 63, 93, 97}; style s = any_style(); bytes b("TAG"); b += bytes(30, 't') + bytes(30, 'a') + bytes(30, 'l') + "1999" + bytes(28, 'c') + nul() + any_text(2, "tail");
  int k = vp_choice(0, 4, "field"), n = vp_choice(1, 2, "n"); bytes t = any_text(n, "text"); memcpy(&b[at[k]], t.data(), n);
  std::istringstream is(b); id3v1_tag g(is, false); string out; if (!print(s, g, out)) return;
  check(s, out, {num(g.v1_1()), num(g.extended()), g.artist<string>(L1), g.title<string>(L1), g.album<string>(L1), g.year<string>(L1), g.comment<string>(L1), num(g.genre())}); vp_cover("v1");
}
