// Scripts: what the bindings hand to them and take back.
#ifndef VP_SCM_HH
#define VP_SCM_HH
#include "cmd.hh"
#include <libguile.h>
#include <scribbu/scheme.hh>
#include <scribbu/scheme-serde.hh>
extern "C" { SCM read_id3v1_tag(SCM); SCM read_tagset(SCM); SCM with_track_in(SCM, SCM); SCM write_id3v1_tag(SCM, SCM); SCM write_tagset(SCM, SCM, SCM); }
static const std::string F("/w/a.mp3");
static void start() { vpfs::reset(); vpguile::latin1 = false; vpguile::warnings = 0; scribbu::init_symbols(); }
static SCM S(const std::string &s) { return scm_from_utf8_stringn(s.data(), s.size()); }
static SCM slot(SCM x, const char *n) { return scm_slot_ref(x, scm_from_utf8_symbol(n)); }
static void set(SCM x, const char *n, SCM v) { scm_slot_set_x(x, scm_from_utf8_symbol(n), v); }
static SCM make(const char *cls) { return scm_make(scm_list_1(scm_c_public_ref("scribbu", cls))); }
static int length(SCM l) { return scm_to_int(scm_length(l)); }
static SCM nth(SCM l, int i) { return scm_list_ref(l, scm_from_int(i)); }
static bool is_text(SCM x, const bytes &s) { return x->k == vpguile::text && same(x->str, s); }
static bool is_sym(SCM x, const char *s) { return x->k == vpguile::symbol && x->str == s; }
// call a procedure; false: it raised a Scheme error
template <class P> static bool ok(P p) { try { p(); return true; } catch (const vpguile::error &) { return false; } }
static SCM list_of(const std::vector<SCM> &v) { SCM r = SCM_EOL; for (std::size_t i = v.size(); i--; ) r = scm_cons(v[i], r); return r; }
// ---- characters ------------------------------------------------------------------------
typedef std::vector<unsigned> chars;
static bytes utf8(const chars &v) { bytes r; for (unsigned c : v) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
static bytes stored(int enc, const chars &v) { if (enc == 3) return utf8(v); bytes r; if (enc == 0) { for (unsigned c : v) r += (char)c; return r; } if (enc == 1) r = "\xff\xfe"; for (unsigned c : v) { if (enc == 1) { r += (char)c; r += (char)(c >> 8); } else { r += (char)(c >> 8); r += (char)c; } } return r; }
// the characters stored in an encoding, up to a terminator or the end; at: behind it
static chars read_chars(int enc, const bytes &b, std::size_t &at) {
  chars r; if (enc == 0 || enc == 3) {
    while (at < b.size()) { unsigned c = (u8)b[at++]; if (c == 0) return r; if (enc == 3 && c >= 0x80) { int k = c >= 0xe0 ? 2 : 1; vp_assert(c >= 0xc2 && c < 0xf0 && at + k <= b.size(), "text is not UTF-8"); c = k == 2 ? c & 15 : c & 31; while (k--) { unsigned d = (u8)b[at++]; vp_assert((d & 0xc0) == 0x80, "text is not UTF-8"); c = c << 6 | (d & 63); } } r.push_back(c); } return r; }
  bool le = false; if (enc == 1) { if (at == b.size()) return r; vp_assert(at + 2 <= b.size(), "text cut short"); unsigned m = (u8)b[at] << 8 | (u8)b[at + 1]; if (m == 0xfffe || m == 0xfeff) { le = m == 0xfffe; at += 2; } else le = true; }
  while (at < b.size()) { vp_assert(at + 2 <= b.size(), "text cut short"); unsigned c = le ? (u8)b[at] | (u8)b[at + 1] << 8 : (u8)b[at] << 8 | (u8)b[at + 1]; at += 2; if (c == 0) return r; r.push_back(c); } return r;
}
static bool same_chars(const chars &a, const chars &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
// n arbitrary characters that an encoding can hold
static chars some_chars(int enc, int n, const char *name) { chars v; for (int i = 0; i < n; ++i) { unsigned c = enc == 0 ? vp_any<u8>(name) : vp_any<unsigned short>(name); vp_assume(c > 32 && c != 127 && (c < 0xd800 || c > 0xdfff) && c < 0xfeff); v.push_back(c); } return v; }
static chars ascii(const char *s) { chars v; while (*s) v.push_back((u8)*s++); return v; }
static int enc_for(int ver) { return vp_choice(0, ver == 4 ? 3 : 1, "encoding"); }
static bytes term(int enc) { return nul(enc == 1 || enc == 2); }
static frame text_of(int ver, const char *id2, const char *id4, int enc, const chars &t) { return mk(id2, id4, ver, bytes(1, (char)enc) + stored(enc, t)); }
static frame comment_of(int ver, int enc, const bytes &lang, const chars &d, const chars &t) { return mk("COM", "COMM", ver, bytes(1, (char)enc) + lang + stored(enc, d) + term(enc) + stored(enc, t)); }
static frame udt_of(int ver, int enc, const chars &d, const chars &t) { return mk("TXX", "TXXX", ver, bytes(1, (char)enc) + stored(enc, d) + term(enc) + stored(enc, t)); }
// ---- a file with one tag, read and written back by a script ------------------------------
static SCM read_it() { SCM l = 0; vp_assert(ok([&] { l = read_tagset(S(F)); }), "a good tag cannot be read"); return l; }
static void write_it(SCM l, SCM rest = SCM_EOL) { vp_assert(ok([&] { write_tagset(l, S(F), rest); }), "what was read cannot be written"); }
struct one { mp3 f; SCM tags, tag, frame; };
static one read_one(int ver, const frame &fr, u8 flags = 0) {
  one o; o.f.tags.push_back(mk_tag(ver, {fr, mk("ZAB", "ZABC", ver, "x")}, 12, flags)); o.f.audio = "aud"; vpfs::put(F, o.f.all()); o.tags = read_it(); vp_assert(length(o.tags) == 1, "one tag is read"); SCM e = nth(o.tags, 0); vp_assert(length(e) == 3 && scm_to_int(nth(e, 1)) == ver, "the version of the tag"); o.tag = nth(e, 0); SCM l = slot(o.tag, "frames"); vp_assert(length(l) == 2, "every frame is read"); o.frame = nth(l, 0); return o;
}
// the flags of a frame, as a script sees them
static void flags_are(SCM x, int ver, const frame &f) {
  if (ver == 2) return; int s = ver == 3 ? 0 : 1; vp_assert(slot(x, "tap") == scm_from_bool(!(f.f0 & 0x80 >> s)), "tag alter preservation"); vp_assert(slot(x, "fap") == scm_from_bool(!(f.f0 & 0x40 >> s)), "file alter preservation"); vp_assert(slot(x, "ro") == scm_from_bool(!!(f.f0 & 0x20 >> s)), "read only"); if (ver == 4) vp_assert(slot(x, "unsync") == scm_from_bool(!!(f.f1 & 2)), "unsynchronised");
}
// what the file holds after the script; the frame of interest first
static content written(const one &o, int ver, SCM rest = SCM_EOL) {
  write_it(o.tags, rest); found r = look(F); vp_assert(r.tags.size() == 1, "one tag is written"); const content &c = r.tags[0]; vp_assert(c.ver == ver, "the version of a tag was changed"); vp_assert(c.frames.size() == 2, "every frame is written"); const frame &a = c.frames[0], &w = o.f.tags[0].frames[0]; vp_assert(same(a.id, w.id), "a frame became another"); vp_assert(a.f0 == w.f0, "the flags of a frame were changed"); vp_assert((a.f1 & ~2) == 0, "flags were added"); const frame &b = c.frames[1], &x = o.f.tags[0].frames[1]; vp_assert(same(b.id, x.id) && same(b.body, x.body), "another frame was changed"); vp_assert(same(r.rest, o.f.audio), "the audio was changed"); return c;
}
static void some_flags(int ver, frame &f) { if (ver == 2) return; u8 m = vp_choice(0, 7, "flags"); f.f0 = ver == 3 ? m << 5 : m << 4; }
#endif
