// P23: taking a file apart.
#include "cmd.hh"
static bytes v1_ext() { bytes r("TAG+"); r += any_text(1, "extended"); r.resize(227, 0); return r; }
static mp3 some_file(bool small = false) {
  mp3 f; int n = vp_choice(0, small ? 1 : 2, "tags"); static const int pads[] = {0, 3, 130};
  for (int i = 0; i < n; ++i) { int ver = small ? 3 : vp_choice(2, 4, "version"); u8 fl = ver == 4 && vp_flag("footer") ? 0x10 : 0; f.tags.push_back(mk_tag(ver, {text_frame(ver, 1)}, fl ? 0 : small ? 3 : pads[vp_choice(0, 2, "padding")], fl)); }
  f.audio = some_audio(small ? 2 : vp_choice(0, 3, "audio size")); int k = small ? vp_choice(0, 1, "v1") : vp_choice(0, 2, "v1"); if (k) f.v1 = (k == 2 ? v1_ext() : bytes()) + mk_v1(vp_any<u8>("genre"), word(1, "title")); return f;
}
static bytes content_of(const std::string &n) { vpfs::node *p = vpfs::find(n); vp_assert(p && !p->dir, "a part was not written"); return p->data; }
// the parts, in the current directory; no others
static void parts(const mp3 &f, const std::string &suffix, const snapshot &was, const std::vector<std::string> &before = {}) {
  std::vector<std::string> names; for (std::size_t i = 0; i < f.tags.size(); ++i) { names.push_back("/w/id3v2" + std::to_string(i) + suffix); vp_assert(same(content_of(names.back()), f.tags[i].raw), "an ID3v2 tag is not what is in the file"); vp_cover("ID3v2 part"); }
  names.push_back("/w/track" + suffix); vp_assert(same(content_of(names.back()), f.audio), "the track is not what is in the file"); if (f.v1.size()) { names.push_back("/w/id3v1" + suffix); vp_assert(same(content_of(names.back()), f.v1), "the ID3v1 tag is not what is in the file"); vp_cover("ID3v1 part"); }
  was.kept(before); for (auto &x : was.added()) { bool ok = false; for (auto &n : names) ok |= x == n; vp_assert(ok, "a file was added that should not be"); }
}
extern "C" {
void h_split_parts() { vpfs::reset(); mp3 f = some_file(); vpfs::put("/w/a.mp3", f.all()); vpfs::put("/w/other", "other"); snapshot was; vp_assert(run("split", {"/w/a.mp3"}) == 0, "the command fails"); parts(f, "", was); }
void h_split_many() { vpfs::reset(); mp3 f; int n = vp_choice(3, 11, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(mk_tag(3, {text_frame(3, 1)}, 1)); f.audio = some_audio(1); vpfs::put("/w/a.mp3", f.all()); snapshot was; vp_assert(run("split", {"/w/a.mp3"}) == 0, "the command fails"); parts(f, "", was); vp_cover("many tags"); }
// sizes that take more than one byte to write down
void h_split_large() {
  vpfs::reset(); mp3 f; static const int pads[] = {114, 115, 116, 117, 128, 240, 241, 16369, 16370, 16371, 16372, 17000}; int ver = vp_choice(2, 4, "version"); f.tags.push_back(mk_tag(ver, {text_frame(ver, 1)}, pads[vp_choice(0, 11, "padding")])); f.audio = bytes(vp_choice(0, 1, "audio") ? 9000 : 128, 'x') + some_audio(1); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put("/w/a.mp3", f.all()); snapshot was; vp_assert(run("split", {"/w/a.mp3"}) == 0, "the command fails"); parts(f, "", was); vp_cover("large");
}
void h_split_names() {
  vpfs::reset(); mp3 f = some_file(true); static const char *at[] = {"/w/a.mp3", "/w/sub/a.mp3", "/tmp/a.mp3"}, *arg[][2] = {{"/w/a.mp3", "a.mp3"}, {"/w/sub/a.mp3", "sub/a.mp3"}, {"/tmp/a.mp3", "/tmp/../tmp/a.mp3"}}; int i = vp_choice(0, 2, "where"); vpfs::put(at[i], f.all()); std::string sfx = word(vp_choice(0, 2, "length"), "suffix"); for (char c : sfx) vp_assume(c != '/'); std::vector<std::string> before;
  if (vp_flag("before")) { before = {"/w/track" + sfx, "/w/id3v20" + sfx}; for (auto &x : before) vpfs::put(x, bytes(300, 'o')); } snapshot was; if (before.size() && f.tags.empty()) before.pop_back(); args_t a; if (sfx.size()) a.push_back("--suffix=" + sfx); a.push_back(arg[i][vp_choice(0, 1, "form")]); vp_assert(run("split", a) == 0, "the command fails"); parts(f, sfx, was, before); vp_cover("named");
}
// the input is never overwritten
void h_split_self() {
  vpfs::reset(); mp3 f = some_file(true); int k = vp_choice(0, 3, "name"); static const char *names[] = {"/w/track", "/w/id3v20", "/w/id3v1", "/w/id3v21"}; vpfs::put(names[k], f.all()); snapshot was; bool hit = k == 0 || (k == 1 && f.tags.size()) || (k == 2 && f.v1.size()); static const char *forms[][3] = {{"/w/track", "track", "sub/../track"}, {"/w/id3v20", "id3v20", "./id3v20"}, {"/w/id3v1", "id3v1", "/w/./id3v1"}, {"/w/id3v21", "id3v21", "//w/id3v21"}};
  int rc = run("split", {forms[k][vp_choice(0, 2, "form")]}); was.kept(); if (hit) { vp_assert(rc != 0, "success is reported though a part could not be written"); vp_cover("part named as the input"); } else { vp_assert(rc == 0, "the command fails"); parts(f, "", was); }
}
// a file that ends within a tag
void h_split_short() { vpfs::reset(); int ver = vp_choice(2, 4, "version"); bytes all = mk_tag(ver, {text_frame(ver, 1)}, 3).raw; int n = vp_choice(10, int(all.size()) - 1, "size"); if (vp_flag("second")) { bytes two = mk_tag(3, {text_frame(3, 1)}, 3).raw; all = two + all; n += two.size(); } all.resize(n); vpfs::put("/w/a.mp3", all); snapshot was; vp_assert(run("split", {"a.mp3"}) != 0, "success is reported for a file that ends within a tag"); was.kept(); vp_cover("short file"); }
void h_split_usage() { vpfs::reset(); mp3 f = some_file(true); vpfs::put("/w/a.mp3", f.all()); snapshot was; static const args_t bad[] = {{}, {"--nosuch", "a.mp3"}, {"a.mp3", "--suffix"}, {"a.mp3", "a.mp3"}, {"nosuch.mp3"}}; vp_assert(run("split", bad[vp_choice(0, 4, "usage")]) != 0, "a request that makes no sense is refused"); was.kept(); vp_cover("refused request"); }
void h_split_fault() {
  vpfs::reset(); mp3 f = some_file(true); vpfs::put("/w/a.mp3", f.all()); snapshot was; vpfs::fail_at = vp_choice(1, 30, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("split", {"a.mp3"}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0; was.kept();
  if (rc == 0) { parts(f, "", was); if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
