// P12: JSON output is well-formed and carries the text unchanged.
#include "tags.hh"
#include <scribbu/json-pprinter.hh>
using namespace scribbu;
using std::string;

// --- a strict JSON reader (RFC 8259): bytes must be UTF-8, no control characters in strings
struct J { char k = 0; string s; std::vector<string> keys; std::vector<J> v;
  const J *get(const char *n) const { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == n) return &v[i]; return nullptr; } };
struct reader {
  const string &t; size_t i = 0; bool ok = true; explicit reader(const string &t) : t(t) {}
  char peek() { return i < t.size() ? t[i] : 0; }
  bool eat(char c) { if (i < t.size() && t[i] == c) { ++i; return true; } return ok = false; }
  static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  void str(string &o) {
    if (!eat('"')) return;
    while (ok) {
      if (i >= t.size()) { ok = false; return; }
      unsigned char c = t[i++]; if (c == '"') return; if (c < 0x20) { ok = false; return; }
      if (c == '\\') {
        if (i >= t.size()) { ok = false; return; } char e = t[i++];
        switch (e) { case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case '"': case '\\': case '/': o += e; break;
          case 'u': { int u = 0; for (int k = 0; k < 4; ++k) { int h = i < t.size() ? hex(t[i++]) : -1; if (h < 0) { ok = false; return; } u = u * 16 + h; } if (u >= 0x800) { ok = false; return; } if (u < 0x80) o += (char)u; else { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); } break; }
          default: ok = false; return; }
        continue;
      }
      int m = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1; if (m < 0) { ok = false; return; }
      o += (char)c; while (m--) { if (i >= t.size() || ((unsigned char)t[i] & 0xc0) != 0x80) { ok = false; return; } o += t[i++]; }
    }
  }
  J value() {
    J j; char c = peek();
    if (c == '{') { j.k = 'o'; ++i; if (peek() == '}') { ++i; return j; } for (;;) { string k; str(k); eat(':'); if (!ok) return j; j.keys.push_back(k); j.v.push_back(value()); if (!ok) return j; if (peek() == ',') { ++i; continue; } eat('}'); return j; } }
    if (c == '[') { j.k = 'a'; ++i; if (peek() == ']') { ++i; return j; } for (;;) { j.v.push_back(value()); if (!ok) return j; if (peek() == ',') { ++i; continue; } eat(']'); return j; } }
    if (c == '"') { j.k = 's'; str(j.s); return j; }
    if (t.compare(i, 4, "true") == 0) { j.k = 't'; i += 4; return j; }
    if (t.compare(i, 5, "false") == 0) { j.k = 'f'; i += 5; return j; }
    j.k = 'n'; if (c == '0') { ++i; j.s = "0"; return j; }
    if (c < '1' || c > '9') { ok = false; return j; } while (peek() >= '0' && peek() <= '9') j.s += t[i++]; return j;
  }
};
static J parse(const string &t) { reader r(t); J j = r.value(); vp_assert(r.ok && r.i == t.size(), "not one JSON value"); vp_defined(t.data(), t.size()); return j; }
static const string &text(const J &j, const char *k) { const J *p = j.get(k); vp_assert(p && p->k == 's', "text missing"); return p->s; }
static void number(const J &j, const char *k, size_t n) { const J *p = j.get(k); vp_assert(p && p->k == 'n', "number missing"); vp_assert(p->s == std::to_string(n), "number differs"); }
template <class T> static bool print(const T &x, string &out) {       // false: printing says it failed
  std::ostringstream os; bool ok = false; try { os << print_as_json(encoding::ISO_8859_1) << x; out = os.str(); ok = (bool)os; } catch (const std::exception &) { }
  if (!ok) vp_cover("failure reported"); return ok;
}
// --- what each kind of frame must carry
template <class F> static bool id_is(const F &f, const J &j) { std::ostringstream s; s << f.id(); string w, i = s.str(); for (unsigned char c : i) if (c < 0x80) w += (char)c; else { w += (char)(0xc0 | c >> 6); w += (char)(0x80 | (c & 63)); } return text(j, "id") == w; }
static void cloud(const tag_cloud &c, const J &j) {
  vp_assert(text(j, "owner") == c.owner(), "owner differs"); const J *p = j.get("cloud"); vp_assert(p && p->k == 'a', "cloud missing"); size_t n = 0;
  for (auto &kv : c) {
    vp_assert(n < p->v.size(), "tag missing"); const J &e = p->v[n++];
    if (kv.second.empty()) { vp_assert(e.k == 's' && e.s == kv.first, "tag differs"); continue; }
    vp_assert(e.k == 'o' && e.keys.size() == 1 && e.keys[0] == kv.first, "tag differs"); const J &v = e.v[0];
    if (kv.second.size() == 1) { vp_assert(v.k == 's' && v.s == *kv.second.begin(), "value differs"); vp_cover("cloud value"); continue; }
    vp_assert(v.k == 'a' && v.v.size() == kv.second.size(), "values missing"); size_t m = 0; for (auto &s : kv.second) { vp_assert(v.v[m].k == 's' && v.v[m].s == s, "value differs"); ++m; } vp_cover("cloud values");
  }
  vp_assert(n == p->v.size(), "tags added");
}
template <class T> static void with_text(const T *f, const J &j) { vp_assert(text(j, "text") == f->template text<string>(), "text differs"); vp_assert(text(j, "description") == f->template description<string>(), "description differs"); vp_cover("described text"); }
template <class P, class F> static void popularity(const P *f, const F &, const J &j, encoding src) { vp_assert(text(j, "email") == f->template email<string>(encoding::UTF_8, on_no_encoding::fail, src), "email differs"); number(j, "rating", f->rating()); number(j, "count", f->count()); vp_cover("popularity"); }
template <class TXT, class UF, class UDT, class COMMENT, class COUNT, class POPU, class CLOUD, class F> static bool common(const F &f, const J &j, encoding mail) {
  vp_assert(id_is(f, j), "id differs"); number(j, "size", f.size());
  if (auto p = dynamic_cast<const TXT *>(&f)) { vp_assert(text(j, "text") == p->template as_str<string>(), "text differs"); vp_cover("text frame"); }
  else if (auto p = dynamic_cast<const UF *>(&f)) { vp_assert(text(j, "owner") == p->template owner<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1), "owner differs"); vp_cover("file id"); }
  else if (auto p = dynamic_cast<const UDT *>(&f)) with_text(p, j);
  else if (auto p = dynamic_cast<const COMMENT *>(&f)) with_text(p, j);
  else if (auto p = dynamic_cast<const COUNT *>(&f)) { number(j, "count", p->count()); vp_cover("count"); }
  else if (auto p = dynamic_cast<const POPU *>(&f)) popularity(p, f, j, mail);
  else if (auto p = dynamic_cast<const CLOUD *>(&f)) cloud(*p, j);
  else return false;
  return true;
}
static void frame_is(const id3v2_2_frame &f, const J &j) { common<id3v2_2_text_frame, UFI, TXX, COM, CNT, POP, XTG>(f, j, encoding::UTF_8); }
template <class E, class P, class F> static void mail_is(const F &f, const J &j) {
  if (auto p = dynamic_cast<const E *>(&f)) { vp_assert(text(j, "email") == p->template email<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1), "email differs"); vp_cover("encryption"); }
  else if (auto p = dynamic_cast<const P *>(&f)) { vp_assert(text(j, "email") == p->template email<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1), "email differs"); vp_cover("private"); }
}
static void frame_is(const id3v2_3_frame &f, const J &j) { if (!common<id3v2_3_text_frame, UFID, TXXX, COMM, PCNT, POPM, XTAG>(f, j, encoding::ISO_8859_1)) mail_is<ENCR, PRIV>(f, j); }
static void frame_is(const id3v2_4_frame &f, const J &j) { if (!common<id3v2_4_text_frame, UFID_2_4, TXXX_2_4, COMM_2_4, PCNT_2_4, POPM_2_4, XTAG_2_4>(f, j, encoding::ISO_8859_1)) mail_is<ENCR_2_4, PRIV_2_4>(f, j); }
// Printing may only fail where the frame's own values cannot be read (text malformed in its own encoding or in none, counts too large to represent).
static void is_utf8(const string &t) { convert_encoding<string>(t.c_str(), t.size(), encoding::UTF_8, encoding::UTF_8); }
template <class TXT, class UF, class UDT, class COMMENT, class COUNT, class POPU, class CLOUD, class F> static void read_all(const F &f, encoding mail) {
  if (auto p = dynamic_cast<const TXT *>(&f)) p->template as_str<string>();
  else if (auto p = dynamic_cast<const UF *>(&f)) p->template owner<string>(encoding::UTF_8, on_no_encoding::fail, encoding::ISO_8859_1);
  else if (auto p = dynamic_cast<const UDT *>(&f)) { p->template text<string>(); p->template description<string>(); }
  else if (auto p = dynamic_cast<const COMMENT *>(&f)) { p->template text<string>(); p->template description<string>(); }
  else if (auto p = dynamic_cast<const COUNT *>(&f)) p->count();
  else if (auto p = dynamic_cast<const POPU *>(&f)) { p->template email<string>(encoding::UTF_8, on_no_encoding::fail, mail); p->count(); }
  else if (auto p = dynamic_cast<const CLOUD *>(&f)) { is_utf8(p->owner()); for (auto &kv : *p) { is_utf8(kv.first); for (auto &v : kv.second) is_utf8(v); } }
}
static bool readable(const id3v2_2_frame &f) { try { read_all<id3v2_2_text_frame, UFI, TXX, COM, CNT, POP, XTG>(f, encoding::UTF_8); return true; } catch (const std::exception &) { return false; } }
static bool readable(const id3v2_3_frame &f) { try { read_all<id3v2_3_text_frame, UFID, TXXX, COMM, PCNT, POPM, XTAG>(f, encoding::ISO_8859_1); return true; } catch (const std::exception &) { return false; } }
static bool readable(const id3v2_4_frame &f) { try { read_all<id3v2_4_text_frame, UFID_2_4, TXXX_2_4, COMM_2_4, PCNT_2_4, POPM_2_4, XTAG_2_4>(f, encoding::ISO_8859_1); return true; } catch (const std::exception &) { return false; } }
template <class T, class F> static void tag_is(const bytes &b, bool each) {
  std::istringstream is(b); std::unique_ptr<T> t; try { t.reset(new T(is)); } catch (const std::exception &) { vp_cover("not a tag"); return; }
  string out;
  if (each) for (auto &&x : *t) { const F &f = x; if (print(f, out)) frame_is(f, parse(out)); else vp_assert(!readable(f), "a frame whose values can be read cannot be printed"); }
  else if (print(*t, out)) {
    J j = parse(out); number(j, "flags", t->flags()); number(j, "size", t->size()); number(j, "padding", t->padding()); const J *p = j.get("frames"); vp_assert(p && p->k == 'a' && p->v.size() == t->num_frames(), "frames missing");
    size_t n = 0; for (auto &&x : *t) { const F &f = x; frame_is(f, p->v[n++]); } vp_cover("tag");
  } else { bool all = true; for (auto &&x : *t) { const F &f = x; all = readable(f) && all; } vp_assert(!all, "a tag whose values can be read cannot be printed"); }
}
static void tag_is(int ver, const bytes &b, bool each) { if (ver == 2) tag_is<id3v2_2_tag, id3v2_2_frame>(b, each); else if (ver == 3) tag_is<id3v2_3_tag, id3v2_3_frame>(b, each); else tag_is<id3v2_4_tag, id3v2_4_frame>(b, each); }
static const char *name(int ver, int kind) {
  static const char *n2[] = {"TT2", "UFI", "TXX", "COM", "CNT", "POP", "XTG", "ZZZ", "ZZZ", "ZZZ"}, *n3[] = {"TIT2", "UFID", "TXXX", "COMM", "PCNT", "POPM", "XTAG", "ENCR", "PRIV", "ZZZZ"};
  return ver == 2 ? n2[kind] : n3[kind];
}
// the body of a frame of that kind, the text in it arbitrary
static bytes body(int ver, int kind, int n) {
  bytes t = any_text(kind == 4 ? 0 : n, "text");
  switch (kind) {
    case 0: return any_text(1, "enc") + t;
    case 1: return t + nul() + "xy";
    case 2: return vp_flag("dsc") ? nul() + t + nul() + "text" : nul() + "d" + nul() + t;
    case 3: return vp_flag("dsc") ? nul() + "eng" + t + nul() + "text" : nul() + "eng" + "d" + nul() + t;
    case 4: { bytes c("\x12\x34\xfa\xbc", 4); c[vp_choice(0, 3, "digit")] = any_text(1, "count")[0]; return c; }
    case 5: return t + nul() + any_text(1, "rating") + bytes(3, 0) + "\x20";
    case 6: for (char c : t) vp_assume(c);
      switch (vp_choice(0, 3, "cloud")) { case 0: return raw_cloud(t, raw_key("a", {"b"}) + raw_key("c", {})); case 1: return raw_cloud("o", raw_key("a", {t}) + raw_key("c", {})); case 2: return raw_cloud("o", raw_key("a", {"q", t})); default: return raw_cloud("o", raw_key(t, {})); }
    case 7: return t + nul() + "\x05" "data";
    case 8: return t + nul() + "data";
    default: return t;
  }
}
template <int VER> static void frames(bool each) { int kind = vp_choice(0, 9, "kind"); if (VER == 2 && kind > 7) vp_assume(false); int n = kind == 4 ? 0 : vp_choice(0, 2, "n"); tag_is(VER, raw_tag(VER, raw_frame(VER, name(VER, kind), body(VER, kind, n))), each); }
extern "C" void h_frame22() { frames<2>(true); }
extern "C" void h_frame23() { frames<3>(true); }
extern "C" void h_frame24() { frames<4>(true); }
template <int VER> static void tags() {     // none to two frames, padding
  int k = vp_choice(0, 2, "frames"), a = vp_choice(0, 1, "arbitrary"), kind = vp_choice(0, VER == 2 ? 7 : 9, "kind"), other = vp_choice(0, 1, "other"); bytes b;
  for (int i = 0; i < k; ++i) if (i == a) b += raw_frame(VER, name(VER, kind), body(VER, kind, 1)); else b += raw_frame(VER, name(VER, other ? 6 : 0), other ? raw_cloud("o", raw_key("a", {"x", "y"}) + raw_key("b", {})) : nul() + "text");
  tag_is(VER, raw_tag(VER, b, vp_flag("pad") ? 12 : 0, VER == 2 ? 0 : vp_flag("flag") ? 0x20 : 0), false);
}
extern "C" void h_tag22() { tags<2>(); }
extern "C" void h_tag23() { tags<3>(); }
extern "C" void h_tag24() { tags<4>(); }
extern "C" void h_id() {                   // frames nobody knows, any name
  int ver = vp_choice(2, 4, "ver"); bytes id = any_text(ver == 2 ? 3 : 4, "id"); for (int i = 0; i < 2; ++i) vp_assume((id[i] >= 'A' && id[i] <= 'Z')); vp_assume(id[0] == 'Z');
  tag_is(ver, raw_tag(ver, raw_frame(ver, id, "abc")), true);
}
static void v1(bool ext, const bytes &b) {
  std::istringstream is(b); id3v1_tag g(is, ext); string out; if (!print(g, out)) return; J j = parse(out); auto L = boost::optional<encoding>(encoding::ISO_8859_1);
  vp_assert(text(j, "title") == g.title<string>(L), "title differs"); vp_assert(text(j, "artist") == g.artist<string>(L), "artist differs"); vp_assert(text(j, "album") == g.album<string>(L), "album differs");
  vp_assert(text(j, "year") == g.year<string>(L), "year differs"); vp_assert(text(j, "comment") == g.comment<string>(L), "comment differs"); number(j, "genre", g.genre());
  if (g.v1_1()) { number(j, "track", g.track_number().second); vp_cover("v1.1"); } else vp_assert(!j.get("track"), "track invented");
  if (ext) { vp_assert(text(j, "enhanced-genre") == g.enh_genre<string>(L), "genre differs"); vp_cover("enhanced"); }
}
static bytes v1_head() { return "TAG" + bytes(30, 't') + bytes(30, 'a') + bytes(30, 'l') + "1999" + bytes(28, 'c'); }
static bytes v1_ext() { return "TAG+" + bytes(180, 'x') + bytes("\1") + bytes(30, 'g') + "000:00" + "009:59"; }
extern "C" void h_v1() {                   // arbitrary text at the start or end of each field
  static const int at[] = {3, 33, 63, 93, 97}, len[] = {30, 30, 30, 4, 28}; bytes b = v1_head() + (vp_flag("v1.1") ? bytes("\0\x0c\x11", 3) : bytes("cc\xff"));
  int k = vp_choice(0, 4, "field"), n = vp_choice(1, 2, "n"), p = vp_flag("end") ? len[k] - n : 0; bytes t = any_text(n, "text"); memcpy(&b[at[k] + p], t.data(), n); v1(false, b);
}
extern "C" void h_v1_tail() { v1(false, v1_head() + any_text(3, "tail")); }
extern "C" void h_v1_ext() {               // enhanced tags: the second part of a text, the genre
  int n = vp_choice(1, 2, "n"), at[] = {4, 64, 124, 185, 213}; bytes t = any_text(n, "text"), e = v1_ext(); memcpy(&e[at[vp_choice(0, 4, "field")]], t.data(), n); v1(true, e + v1_head() + bytes("\0\x07\x11", 3));
}
extern "C" void h_escape() {
  int n = vp_choice(0, 4, "n"); bytes t = any_text(n, "text"); for (unsigned char c : t) vp_assume(c < 0x80);
  J j = parse("\"" + json_pprinter::escape(t) + "\""); vp_assert(j.s == t, "text differs"); vp_cover("escape");
}
