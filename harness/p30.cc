// P30: scripts get ID3v1 tags, give them back, and walk directories.
#include "scm.hh"
static const char *const fields[] = {"title", "artist", "album", "comment"};
static bytes fit(bytes s, std::size_t n) { s.resize(n, 0); return s; }
// what an ID3v1 tag says
struct v1tag { chars text[4]; bytes year = "1999", start, end; u8 genre = 9, track = 0, speed = 0; chars enh; bool ext = false; };
static bytes raw(const v1tag &t) {
  auto part = [&](int i, std::size_t at, std::size_t n) { bytes b = stored(0, t.text[i]); return fit(b.size() > at ? b.substr(at, n) : bytes(), n); };
  bytes e; if (t.ext) e = bytes("TAG+") + part(0, 30, 60) + part(1, 30, 60) + part(2, 30, 60) + bytes(1, (char)t.speed) + fit(stored(0, t.enh), 30) + fit(t.start, 6) + fit(t.end, 6);
  return e + "TAG" + part(0, 0, 30) + part(1, 0, 30) + part(2, 0, 30) + fit(t.year, 4) + (t.track ? part(3, 0, 28) + nul() + bytes(1, (char)t.track) : part(3, 0, 30)) + bytes(1, (char)t.genre);
}
static chars some_text(int i, int at) { return i == at ? some_chars(0, vp_choice(0, 2, "length"), "text") : ascii("ab"); }
static v1tag some_v1() {
  v1tag t; int at = vp_choice(0, 5, "field"); for (int i = 0; i < 4; ++i) t.text[i] = some_text(i, at); if (at == 4) { t.genre = vp_any<u8>("genre"); if (vp_flag("no year")) t.year = ""; } if (vp_flag("track")) { t.track = vp_any<u8>("track"); vp_assume(t.track != 0); }
  if (vp_flag("enhanced")) { t.ext = true; t.speed = 2; t.enh = ascii("Metal"); t.start = "001:02"; t.end = "003:04"; if (at == 5) { t.enh = some_chars(0, vp_choice(0, 2, "length"), "text"); t.speed = vp_any<u8>("speed"); vp_assume(t.speed != 0); if (vp_flag("no times")) { t.start = ""; t.end = ""; } } if (at < 3) { chars l(30, 'x'); l.insert(l.end(), t.text[at].begin(), t.text[at].end()); t.text[at] = l; vp_cover("long text"); } }
  return t;
}
static void sees(SCM x, const v1tag &t) {
  for (int i = 0; i < 4; ++i) vp_assert(is_text(slot(x, fields[i]), utf8(t.text[i])), "the text a script sees"); vp_assert(is_text(slot(x, "year"), t.year), "the year a script sees"); vp_assert(scm_to_int(slot(x, "genre")) == t.genre, "the genre a script sees");
  if (t.track) vp_assert(scm_to_int(slot(x, "track-no")) == t.track, "the track number a script sees"); else vp_assert(slot(x, "track-no") == SCM_EOL, "a track number that is not there");
  if (t.ext) { vp_assert(is_text(slot(x, "enh-genre"), utf8(t.enh)), "the enhanced genre a script sees"); vp_assert(scm_to_int(slot(x, "speed")) == t.speed, "the speed a script sees"); vp_assert(is_text(slot(x, "start-time"), t.start) && is_text(slot(x, "end-time"), t.end), "the times a script sees"); vp_cover("enhanced"); } else vp_assert(is_text(slot(x, "enh-genre"), "") && slot(x, "speed") == SCM_EOL, "an enhanced tag that is not there");
}
static SCM made_of(const v1tag &t) { SCM x = make("<id3v1-tag>"); for (int i = 0; i < 4; ++i) set(x, fields[i], S(utf8(t.text[i]))); if (t.year.size()) set(x, "year", S(t.year)); set(x, "genre", scm_from_int(t.genre)); if (t.track) set(x, "track-no", scm_from_int(t.track)); if (t.ext) { set(x, "enh-genre", S(utf8(t.enh))); set(x, "speed", scm_from_int(t.speed)); set(x, "start-time", S(t.start)); set(x, "end-time", S(t.end)); } return x; }
static SCM read_v1() { SCM x = 0; vp_assert(ok([&] { x = read_id3v1_tag(S(F)); }), "a good tag cannot be read"); return x; }
static void write_v1(SCM x) { vp_assert(ok([&] { write_id3v1_tag(x, S(F)); }), "a good tag cannot be written"); }
static bytes v2() { return vp_flag("v2") ? mk_tag(3, {text_of(3, "TT2", "TIT2", 0, ascii("x"))}, 2).raw : bytes(); }
static std::vector<std::vector<SCM>> *calls;
static SCM note(SCM a, SCM b, SCM c) { calls->push_back({a, b, c}); return SCM_UNSPECIFIED; }
static SCM note_but(SCM a, SCM b, SCM c) { calls->push_back({a, b, c}); if (calls->size() == 2) throw vpguile::error{scm_from_utf8_symbol("mine"), "", ""}; return SCM_UNSPECIFIED; }
extern "C" {
void h_v1_back() { start(); v1tag t = some_v1(); bytes a = v2() + "aud"; vpfs::put(F, a + raw(t)); snapshot was; SCM x = read_v1(); sees(x, t); was.untouched(); write_v1(x); vp_assert(same(vpfs::find(F)->data, a + raw(t)), "the tag was changed"); vp_assert(was.added().empty(), "files are left behind"); vp_cover("read and written back"); }
void h_v1_made() { start(); v1tag t = some_v1(); bytes a = v2() + "aud"; int k = vp_choice(0, 2, "before"); v1tag old; for (auto &x : old.text) x = ascii("old"); old.ext = k == 2; vpfs::put(F, k ? a + raw(old) : a); snapshot was; write_v1(made_of(t)); vp_assert(same(vpfs::find(F)->data, a + raw(t)), "the tag written is not the one made"); vp_assert(was.added().empty(), "files are left behind"); vp_cover("made"); }
void h_v1_long() { start(); int i = vp_choice(0, 3, "field"), n = vp_choice(27, 31, "length"); v1tag t; for (auto &x : t.text) x = ascii("ab"); t.text[i] = chars(n - 1, 'x'); t.text[i].push_back(some_chars(0, 1, "text")[0]); if (vp_flag("track")) t.track = 7; vpfs::put(F, "aud"); write_v1(made_of(t)); vp_assert(same(vpfs::find(F)->data, "aud" + raw(t)), "the tag written is not the one made"); vp_cover("cut"); }
void h_v1_refuse() {
  start(); vpfs::put(F, "aud" + mk_v1(9)); snapshot was; SCM x = read_v1(), pth = S(F); int n = 0; switch (vp_choice(0, 8, "request")) {
  case 0: n = vp_choice(1, 6, "length"); if (n == 4) n = 3; set(x, "year", S(word(n, "year"))); break;
  case 1: n = vp_choice(1, 8, "length"); if (n == 6) n = 5; set(x, "start-time", S(word(n, "time"))); break;
  case 2: n = vp_choice(1, 8, "length"); if (n == 6) n = 5; set(x, "end-time", S(word(n, "time"))); break;
  case 3: set(x, "genre", scm_from_int(vp_flag("negative") ? -1 : 256)); break; case 4: set(x, "track-no", scm_from_int(256)); break; case 5: set(x, "title", scm_from_int(3)); break; case 6: x = make("<id3v2-tag>"); break; case 7: x = S("tag"); break; case 8: pth = S("/w/none/b.mp3"); break; }
  vp_assert(!ok([&] { write_id3v1_tag(x, pth); }), "a tag that makes no sense is refused"); was.untouched(); vp_assert(was.added().empty(), "files are left behind"); vp_cover("refused");
}
void h_v1_none() { start(); int k = vp_choice(0, 2, "file"); if (k) vpfs::put(F, (k == 1 ? bytes("ab") : bytes(130, 'a')) + any_text(2, "bytes")); snapshot was; SCM x = 0; bool good = ok([&] { x = read_id3v1_tag(S(F)); }); was.untouched(); if (k) { vp_assert(good && x == SCM_ELISP_NIL, "a file without ID3v1 tag has none"); vp_cover("none"); } else { vp_assert(!good, "a missing file is reported"); vp_cover("missing"); } }
void h_v1_fault() {
  start(); v1tag t; for (auto &x : t.text) x = ascii("ab"); t.text[1] = some_chars(0, 1, "text"); t.ext = vp_flag("enhanced"); if (t.ext) { t.speed = 1; t.enh = ascii("Metal"); } bytes a = "aud"; vpfs::put(F, vp_flag("before") ? a + mk_v1(9) : a); SCM x = made_of(t);
  vpfs::fail_at = vpfs::ops + vp_choice(1, 20, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); bool good = ok([&] { write_id3v1_tag(x, S(F)); }), hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0; if (good) { vp_assert(same(vpfs::find(F)->data, a + raw(t)), "success is reported though the file is not as asked for"); if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "a good tag cannot be written"); vp_cover("fault reported"); }
}
// every file of a tree, once, with its tags
void h_track() {
  start(); std::vector<std::vector<SCM>> c; calls = &c; const char *name[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.mp3"}; chars t = some_chars(0, 1, "text"); int k[3]; for (int i = 0; i < 3; ++i) { k[i] = vp_choice(0, 4, "file"); bytes g = mk_tag(3, {text_of(3, "TT2", "TIT2", 0, t)}, 2).raw, v = mk_v1(i, stored(0, t)); vpfs::put(name[i], k[i] == 0 ? bytes("aud") : k[i] == 1 ? g + "aud" : k[i] == 2 ? "aud" + v : k[i] == 3 ? g + g + "aud" + v : bytes("ID3\3\0\0\0\0\0\x14TIT2\0\0\0\x7f\0\0zzzzzzzzzzaud", 33)); }
  vpfs::put("/v/x.mp3", "aud"); snapshot was; vpguile::obj fn(vpguile::procedure); bool bad = vp_flag("error"); fn.fn = bad ? note_but : note; bool sub = vp_flag("sub"); bool good = ok([&] { with_track_in(S(sub ? "/w/sub" : "/w"), &fn); }); was.untouched(); std::size_t n = sub ? 2 : 3;
  if (bad) { vp_assert(!good && c.size() == 2, "an error of the script's reaches it at once"); vp_cover("script's error"); return; }
  vp_assert(good && c.size() == n, "every file once"); std::size_t w = 0; for (int i = sub ? 1 : 0; i < 3; ++i) { int at = -1; for (std::size_t j = 0; j < c.size(); ++j) if (is_text(c[j][1], name[i])) { vp_assert(at < 0, "a file comes twice"); at = j; } vp_assert(at >= 0, "a file is left out"); SCM g = c[at][0], v = c[at][2]; int tags = k[i] == 1 ? 1 : k[i] == 3 ? 2 : 0; bool v1 = k[i] == 2 || k[i] == 3;
    if (k[i] == 4) ++w; vp_assert((g == SCM_ELISP_NIL ? 0 : length(g)) == tags, "the ID3v2 tags of a file"); for (int j = 0; j < tags; ++j) vp_assert(is_text(slot(nth(slot(nth(nth(g, j), 0), "frames"), 0), "text"), utf8(t)), "the text of a tag"); if (!v1) vp_assert(v == SCM_ELISP_NIL, "an ID3v1 tag that is not there"); else { vp_assert(is_text(slot(v, "title"), utf8(t)) && scm_to_int(slot(v, "genre")) == i, "the ID3v1 tag of a file"); vp_cover("both"); } }
  if (w) { vp_assert(vpguile::warnings > 0, "a file that cannot be read is reported"); vp_cover("warned"); }
}
}
