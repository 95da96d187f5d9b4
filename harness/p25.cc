// P25: playlists.
#include "cmd.hh"
static const bytes FRAME = bytes("\xff\xe3\x18\xc0", 4) + bytes(68, '\x55');      // 72 ms
static const int counts[] = {0, 1, 6, 7, 20, 21}, secs[] = {0, 0, 0, 1, 1, 2};
static bytes frames(int n) { bytes r; while (n--) r += FRAME; return r; }
// text for a list: printable or beyond ASCII (only where the encoding is given; the system's is up to the system)
static bytes name_char(const char *nm, bool beyond = true) { bytes b = any_text(1, nm); u8 c = b[0]; vp_assume((c > 32) & (c != 127) & ((c < 127) | (beyond & (c >= 0xa0)))); return b; }
static bool ascii(const bytes &b) { bool r = true; for (char c : b) r &= (u8) c < 128; return r; }
static std::string utf8(const bytes &b) { std::string r; for (char ch : b) { u8 c = ch; if (c < 128) r += ch; else { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 0x3f)); } } return r; }
static std::string entry(int s, const std::string &title, const std::string &path) { return "#EXTINF:" + std::to_string(s) + "," + title + "\n" + path + "\n"; }
static bytes content_of(const std::string &n) { vpfs::node *p = vpfs::find(n); vp_assert(p && !p->dir, "there is no playlist"); return p->data; }
extern "C" {
// which title is shown
void h_m3u_title() {
  vpfs::reset(); mp3 f; bool utf = vp_flag("utf8"); int k = vp_choice(0, 7, "tags"), ver = vp_choice(2, 4, "version"); bytes a = name_char("artist", utf), t = name_char("title", utf), a1 = name_char("artist", false), t1 = name_char("title", false); auto A = [&](const bytes &x) { return plain_text(ver, "TP1", "TPE1", x); }; auto T = [&](const bytes &x) { return plain_text(ver, "TT2", "TIT2", x); };
  bool full = k == 1 || k == 4 || k == 5; switch (k) { case 1: f.tags = {mk_tag(ver, {T(t), A(a)}, 3)}; break; case 2: f.tags = {mk_tag(ver, {T(t)}, 3)}; break; case 3: f.tags = {mk_tag(ver, {A(a)}, 3)}; break; case 4: f.tags = {mk_tag(3, {plain_text(3, "TT2", "TIT2", "zz")}, 3), mk_tag(ver, {A(a), T(t)}, 3)}; break; case 6: f.tags = {mk_tag(ver, {A(a), T("")}, 3)}; break; case 7: f.tags = {mk_tag(ver, {A(""), T(t)}, 3)}; break; case 5: f.tags = {mk_tag(ver, {A(a), T(t)}, 3), mk_tag(3, {plain_text(3, "TP1", "TPE1", "yy"), plain_text(3, "TT2", "TIT2", "zz")}, 3)}; break; }
  int v = vp_choice(0, 3, "v1"); if (v) f.v1 = mk_v1(9, v == 2 ? bytes() : t1, v == 3 ? bytes() : a1); int n = vp_choice(0, 5, "frames"); if (k > 1) vp_assume(n < 2); f.audio = frames(counts[n]); vpfs::put("/w/sub/a.b.mp3", f.all()); snapshot was; bool out = utf || vp_flag("output"); args_t g; if (out) g = {"-o", "/w/p.m3u"}; if (utf) g.push_back("-8"); static const char *arg[] = {"/w/sub/a.b.mp3", "sub/a.b.mp3"}; const char *p = arg[vp_choice(0, 1, "form")]; capture cap; vp_assert(run("m3u", g + args_t{p}) == 0, "the command fails");
  std::string want; if (full) { want = utf8(a) + " - " + utf8(t); vp_cover("ID3v2 title"); if (!ascii(t)) vp_cover("beyond ASCII"); } else if (!full && v == 1) { want = a1 + " - " + t1; vp_cover("ID3v1 title"); } else { want = "a.b"; vp_cover("no title"); }
  std::string got = out ? content_of("/w/p.m3u") : cap.text(), all = (out ? "#EXTM3U\n" : "") + entry(secs[n], want, p); vp_assert(got == all, "the playlist"); was.kept(); vp_assert(was.added().size() == (out ? 1 : 0), "a file was added that should not be");
}
// each file once
void h_m3u_files() {
  vpfs::reset(); static const char *at[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.ogg"}; static const bool has_tag[] = {true, true, false}; bytes a[3], t[3]; std::string title[3]; int n[3] = {7, 1, 0}, s[3] = {1, 0, 0}; for (int i = 0; i < 3; ++i) { mp3 f; if (has_tag[i]) { a[i] = name_char("artist", false); t[i] = name_char("title", false); f.tags = {mk_tag(3, {plain_text(3, "TP1", "TPE1", a[i]), plain_text(3, "TT2", "TIT2", t[i])}, 3)}; title[i] = a[i] + " - " + t[i]; } else title[i] = "c"; f.audio = frames(n[i]); vpfs::put(at[i], f.all()); } snapshot was;
  static const struct { args_t a; std::vector<std::pair<int, const char *>> e; } cases[] = {{{"/w"}, {{0, "/w/a.mp3"}, {1, "/w/sub/b.mp3"}, {2, "/w/sub/c.ogg"}}}, {{"sub"}, {{1, "sub/b.mp3"}, {2, "sub/c.ogg"}}}, {{"a.mp3", "sub/c.ogg"}, {{0, "a.mp3"}, {2, "sub/c.ogg"}}}, {{"sub/b.mp3", "/w/a.mp3", "sub/b.mp3"}, {{1, "sub/b.mp3"}, {0, "/w/a.mp3"}, {1, "sub/b.mp3"}}}, {{"/w/sub/", "a.mp3"}, {{1, "/w/sub/b.mp3"}, {2, "/w/sub/c.ogg"}, {0, "a.mp3"}}}}; int k = vp_choice(0, 4, "arguments"); auto &c = cases[k]; bool out = vp_flag("output"); args_t g; if (out) g = {"--output=/tmp/my list"}; capture cap; vp_assert(run("m3u", g + c.a) == 0, "the command fails");
  std::string got = out ? content_of("/tmp/my list") : cap.text(), all[6]; if (out) { vp_assert(got.substr(0, 8) == "#EXTM3U\n", "the header"); got.erase(0, 8); }
  // the order within a directory is not specified
  std::vector<std::string> e; for (auto &x : c.e) e.push_back(entry(s[x.first], title[x.first], x.second)); bool ok = false; std::vector<std::size_t> perm; for (std::size_t i = 0; i < e.size(); ++i) perm.push_back(i); do { if (k == 2 || k == 3) if (!std::is_sorted(perm.begin(), perm.end())) continue; std::string x; for (auto i : perm) x += e[i]; if (got == x) ok = true; } while (!ok && std::next_permutation(perm.begin(), perm.end()));
  vp_assert(ok, "not each file once"); was.kept(); vp_cover("several files");
}
void h_m3u_append() {
  vpfs::reset(); bytes old = any_text(vp_choice(0, 3, "size"), "old"); bool there = vp_flag("there"), app = vp_flag("append"); mp3 f; bytes a = name_char("artist", false); f.tags = {mk_tag(3, {plain_text(3, "TP1", "TPE1", a), plain_text(3, "TT2", "TIT2", "t")}, 3)}; f.audio = frames(1); vpfs::put("/w/a.mp3", f.all()); if (there) vpfs::put("/w/p.m3u", old); else vp_assume(old.empty()); snapshot was; args_t g{"-o", "p.m3u"}; if (app) g.push_back("-a"); int times = vp_choice(1, 2, "times"); for (int i = 0; i < times; ++i) vp_assert(run("m3u", g + args_t{"a.mp3"}) == 0, "the command fails");
  std::string e = entry(0, a + " - t", "a.mp3"), got = content_of("/w/p.m3u"); if (!app) { vp_assert(got == "#EXTM3U\n" + e, "the playlist is not written anew"); vp_cover("overwritten"); } else { if (times == 2) e += e; if (old.size()) vp_assert(got == old + e, "the entries are not appended to the playlist"); else vp_assert(got == "#EXTM3U\n" + e || got == e, "a new playlist"); vp_cover("appended"); } was.kept({"/w/p.m3u"});
}
void h_m3u_usage() {
  vpfs::reset(); mp3 f; f.audio = some_audio(2); vpfs::put("/w/a.mp3", f.all()); vpfs::put("/w/p.m3u", "list"); snapshot was; static const args_t bad[] = {{}, {"--nosuch", "a.mp3"}, {"-a", "a.mp3"}, {"-8", "a.mp3"}, {"-o", "p.m3u"}, {"-s", "nosuch", "-o", "p.m3u", "a.mp3"}, {"-e", "nosuch", "-o", "p.m3u", "a.mp3"}, {"a.mp3", "-o"}, {"-o", "/nosuch/p.m3u", "a.mp3"}}; vp_assert(run("m3u", bad[vp_choice(0, 8, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
void h_m3u_fault() {
  vpfs::reset(); mp3 f; bytes a = name_char("artist", false); f.tags = {mk_tag(3, {plain_text(3, "TP1", "TPE1", a), plain_text(3, "TT2", "TIT2", "t")}, 3)}; f.audio = frames(1); vpfs::put("/w/a.mp3", f.all()); mp3 h = f; h.tags.clear(); vpfs::put("/w/b.mp3", h.all()); bool app = vp_flag("append"); if (app) vpfs::put("/w/p.m3u", "#EXTM3U\n"); snapshot was; vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); args_t g{"-o", "p.m3u"}; if (app) g.push_back("-a"); int rc = run("m3u", g + args_t{"a.mp3", "b.mp3"}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0; was.kept({"/w/p.m3u"});
  if (rc == 0) { vp_assert(same(content_of("/w/p.m3u"), "#EXTM3U\n" + entry(0, a + " - t", "a.mp3") + entry(0, "b", "b.mp3")), "success is reported though the playlist is not complete"); if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
