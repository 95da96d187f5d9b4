// P24: renaming files by template.
#include "cmd.hh"
static bool has(const std::string &n, const bytes &d) { vpfs::node *p = vpfs::find(n); return p && !p->dir && same(p->data, d); }
static std::string any_name(int n, const char *nm) { std::string s = word(n, nm); for (char &c : s) vp_assume((c != '/') & (c != '.') & ((c < 'a') | (c > 'z') | (&c != &s[0]))); return s; }   // templates change the case of the first letter (P16)
struct track { std::string artist, title; bytes data; };
// the names are in the ID3v2 tag, the ID3v1 tag, or both
static track some_track(int n, int k = 0) {
  track t; t.artist = any_name(1, "artist"); t.title = any_name(n, "title"); mp3 f; if (k != 1) f.tags.push_back(mk_tag(3, {plain_text(3, "TP1", "TPE1", t.artist), plain_text(3, "TT2", "TIT2", t.title)}, 3)); f.audio = some_audio(2); if (k) f.v1 = mk_v1(9, k == 1 ? t.title : "zz", k == 1 ? t.artist : "zz"); t.data = f.all(); return t;
}
struct templ { args_t args; const char *pre; bool artist, title; const char *post; };
static const templ templs[] = {{{}, "", true, true, ".mp3"}, {{"-t", "%T.mp3"}, "", false, true, ".mp3"}, {{"--template=x %A"}, "x ", true, false, ""}, {{"-t", "a.mp3"}, "a.mp3", false, false, ""}, {{"-t", "b.mp3"}, "b.mp3", false, false, ""}};
static std::string name_of(const templ &m, const track &t) { std::string s(m.pre); if (m.artist) s += t.artist; if (m.artist && m.title) s += " - "; if (m.title) s += t.title; return s + m.post; }
extern "C" {
void h_rename_one() {
  vpfs::reset(); track t = some_track(vp_choice(1, 2, "length"), vp_choice(0, 2, "tags")); int w = vp_choice(0, 1, "where"); static const char *at[] = {"/w/a.mp3", "/w/sub/a.mp3"}, *form[][2] = {{"/w/a.mp3", "a.mp3"}, {"/w/sub/a.mp3", "sub/a.mp3"}}; std::string src(at[w]); vpfs::put(src, t.data); vpfs::put("/w/C.mp3", "other"); snapshot was;
  const templ &m = templs[vp_choice(0, 4, "template")]; int o = vp_choice(0, 2, "output"); static const args_t outs[] = {{}, {"-o", "/tmp"}, {"--output=sub"}}; bool dry = vp_flag("dry"), mv = vp_flag("remove"); args_t a = m.args + outs[o]; if (dry) a.push_back("-n"); if (mv) a.push_back("-r");
  std::string dst = (o == 1 ? "/tmp/" : o == 2 || w ? "/w/sub/" : "/w/") + name_of(m, t); bool itself = dst == src, clash = dst == "/w/C.mp3"; capture cap; int rc = run("rename", a + args_t{form[w][vp_choice(0, 1, "form")]});
  if (dry) { vp_assert(rc == 0, "the command fails"); was.untouched(); vp_cover("dry run"); return; }
  if (clash) { vp_assert(rc != 0, "success is reported though the name is taken"); was.untouched(); vp_cover("name taken"); return; }
  // writing a file onto itself under another spelling of its name may be refused
  if (itself) { was.untouched(); vp_cover("own name"); return; }
  vp_assert(rc == 0, "the command fails"); vp_assert(has(dst, t.data), "the file is not there under its new name"); auto add = was.added(); vp_assert(add.size() == 1, "other files were added"); if (mv) { vp_assert(!vpfs::find(src), "the old name is still there"); was.kept({src}); vp_cover("renamed"); } else { was.kept(); vp_cover("copied"); }
}
// whole directories
void h_rename_files() {
  vpfs::reset(); track t[3] = {some_track(1), some_track(1), some_track(1)}; static const char *at[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.mp3"}; for (int i = 0; i < 3; ++i) vpfs::put(at[i], t[i].data); vpfs::put("/w/sub/d.txt", t[0].data); vpfs::put("/w/e.mp3x", t[0].data); snapshot was; bool mv = vp_flag("remove");
  static const struct { args_t a; int which; } cases[] = {{{"/w"}, 7}, {{"sub"}, 6}, {{"sub", "a.mp3"}, 7}, {{"a.mp3", "sub/c.mp3"}, 5}, {{"/w/sub/"}, 6}}; auto &c = cases[vp_choice(0, 4, "arguments")]; bool out = vp_flag("output"); args_t a{"-t", "%T-%A.mp3"}; if (mv) a.push_back("-r"); if (out) a = a + args_t{"-o", "/tmp"}; int rc = run("rename", a + c.a);
  std::string dst[3]; bool clash = false; for (int i = 0; i < 3; ++i) { dst[i] = (out ? "/tmp/" : i ? "/w/sub/" : "/w/") + t[i].title + "-" + t[i].artist + ".mp3"; if (c.which & 1 << i) for (int j = 0; j < i; ++j) if (c.which & 1 << j) clash |= dst[i] == dst[j]; }
  // whatever happens, nothing is lost
  for (int i = 0; i < 3; ++i) vp_assert(has(at[i], t[i].data) || ((c.which & 1 << i) && mv && has(dst[i], t[i].data)), "a file is lost"); was.kept({at[0], at[1], at[2]});
  if (clash) { vp_assert(rc != 0, "success is reported though two files have the same name"); vp_cover("names clash"); return; }
  vp_assert(rc == 0, "the command fails"); std::size_t n = 0; for (int i = 0; i < 3; ++i) if (c.which & 1 << i) { vp_assert(has(dst[i], t[i].data), "a file is not there under its new name"); vp_assert(!mv == !!vpfs::find(at[i]), "the old name"); ++n; } else vp_assert(has(at[i], t[i].data), "a file was renamed that should not be"); vp_assert(was.added().size() == n, "other files were added"); vp_cover("several files");
}
void h_rename_without() { vpfs::reset(); mp3 f; int k = vp_choice(0, 1, "kind"), ver = vp_choice(2, 4, "version"); if (k) f.tags.push_back(mk_tag(ver, {plain_text(ver, "TAL", "TALB", "x")}, 3)); f.audio = some_audio(2); vpfs::put("/w/a.mp3", f.all()); snapshot was; args_t a; if (vp_flag("remove")) a.push_back("-r"); run("rename", a + args_t{"/w/a.mp3"}); was.untouched(); vp_cover("no tags"); }
void h_rename_usage() {
  vpfs::reset(); track t = some_track(1); vpfs::put("/w/a.mp3", t.data); snapshot was; static const args_t bad[] = {{}, {"--nosuch", "a.mp3"}, {"a.mp3", "-t"}, {"nosuch.mp3"}, {"-o", "/nosuch", "a.mp3"}, {"-r", "-o", "/nosuch", "a.mp3"}, {"-t", "%", "a.mp3"}, {"-r", "-t", "%(title", "a.mp3"}, {"-t", "%(nosuch)", "a.mp3"}, {"-r", "nosuch.mp3"}};
  vp_assert(run("rename", bad[vp_choice(0, 9, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
// no failure or crash loses a file
void h_rename_fault() {
  vpfs::reset(); track t = some_track(1), u = some_track(1); vp_assume(t.title != u.title); vpfs::put("/w/a.mp3", t.data); vpfs::put("/w/b.mp3", u.data); bool mv = vp_flag("remove"), stop = vp_flag("stop"); vpfs::cross_device = vp_flag("device"); std::string d0 = "/tmp/x" + t.title, d1 = "/tmp/x" + u.title; args_t a{"-t", "x%T", "-o", "/tmp"}; if (mv) a.push_back("-r");
  int n = vp_choice(1, stop ? 12 : 40, "fault"); (stop ? vpfs::stop_at : vpfs::fail_at) = n; vpfs::partial = vp_choice(0, 2, "partial"); int rc = run("rename", a + args_t{"a.mp3", "b.mp3"}); bool stopped = vpfs::stopped, hit = stopped || (!stop && vpfs::ops >= n); vpfs::fail_at = vpfs::stop_at = 0;
  vp_assert(has("/w/a.mp3", t.data) || (mv && has(d0, t.data)), "a file is lost"); vp_assert(has("/w/b.mp3", u.data) || (mv && has(d1, u.data)), "a file is lost");
  if (stopped) vp_cover("stopped"); else if (rc == 0) { vp_assert(has(d0, t.data) && has(d1, u.data), "success is reported though a file is not there under its new name"); if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
