// P19: the genre command.
#include "cmd.hh"
#include <scribbu/winamp-genres.hh>
static const std::string F("/w/a.mp3");
static bool tcon(const frame &f) { return is(f, "TCO", "TCON"); }
// a tag without a genre, or with an arbitrary one, before or after a frame of another kind
static sample some_tag(int ver, int k) {
  frame o = other_frame(ver, 1); std::vector<frame> v;
  if (k == 0) v = {o}; else if (k == 1) v = {plain_text(ver, "TCO", "TCON", "Old"), o}; else v = {o, plain_text(ver, "TCO", "TCON", word(4, "genre"))};
  return mk_tag(ver, v, 30);
}
static void genre_set(const content &c, const sample &s, const std::string &want) {
  vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, tcon);
  has_text(c, "TCO", "TCON", want);
}
static void v1_genre_set(const bytes &now, const bytes &old, u8 g) { vp_assert(now.size() == old.size(), "the size of the ID3v1 tag changed"); std::size_t n = now.size(); vp_assert(same(now.substr(n - 128, 127), old.substr(n - 128, 127)), "the ID3v1 tag was changed beyond its genre"); vp_assert((u8)now[n - 1] == g, "the ID3v1 genre is not the one asked for"); }
// one ID3v2.3 tag and an ID3v1 tag, set to the genre
static void both_set(const mp3 &f, const std::string &text, u8 g) { found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); genre_set(r.tags[0], f.tags[0], text); v1_genre_set(after_audio(r, f), f.v1, g); }
static mp3 both() { mp3 f; f.tags.push_back(some_tag(3, 1)); f.audio = some_audio(2); f.v1 = mk_v1(vp_any<u8>("genre")); return f; }
extern "C" {
// which tags
void h_genre_scope() {
  vpfs::reset(); mp3 f; int n = vp_choice(0, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 2, "kind")));
  bool v1 = vp_flag("v1"); f.audio = some_audio(2); u8 old = vp_any<u8>("genre"); if (v1) f.v1 = mk_v1(old); vpfs::put(F, f.all()); vpfs::put("/w/b.mp3", "other"); snapshot was;
  static const scope scopes[] = {{{}, -1, true}, {{"-1"}, 0, true}, {{"-2"}, -1, false}, {{"-t", "0"}, 1, true}, {{"-t", "1"}, 2, true}, {{"-t", "0", "-t", "1"}, 3, true}, {{"-t", "1", "-t", "0"}, 3, true}, {{"-2", "-t", "1"}, 2, false}, {{"--tag=7"}, 0, true}};
  scope sc = scopes[vp_choice(0, 8, "scope")]; int rc = run("genre", args_t{"-w", "17"} + sc.args + args_t{F});
  vp_assert(rc == 0, "the command fails"); was.kept({F}); vp_assert(was.added().empty(), "files are left behind"); found r = look(F);
  vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed");
  for (std::size_t i = 0; i < r.tags.size(); ++i) if (sc.in(i)) { genre_set(r.tags[i], f.tags[i], "Rock"); vp_cover("ID3v2 genre set"); } else { tag_same(r.tags[i], f.tags[i]); vp_cover("ID3v2 tag out of scope"); }
  bytes z = after_audio(r, f);
  if (!v1) vp_assert(z.empty(), "something was added after the audio"); else if (!sc.v1) { vp_assert(same(z, f.v1), "the ID3v1 tag was changed"); vp_cover("ID3v1 tag out of scope"); } else { v1_genre_set(z, f.v1, 17); vp_cover("ID3v1 genre set"); }
}
// tags that are not there
void h_genre_create() {
  vpfs::reset(); mp3 f; bool v1 = vp_flag("v1"); int n = vp_choice(0, 2, "tags"); f.audio = some_audio(2); bytes ti = word(1, "title"), ar = word(2, "artist");
  // of two tags the first says less
  if (n == 2) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), 0));
  if (n) { int v = vp_choice(2, 4, "version"); f.tags.push_back(mk_tag(v, {plain_text(v, "TT2", "TIT2", ti), plain_text(v, "TP1", "TPE1", ar)}, 30)); }
  if (v1) f.v1 = mk_v1(vp_any<u8>("genre"), ti, ar); vpfs::put(F, f.all()); snapshot was;
  static const struct { args_t a; int v2, v1; } opts[] = {{{}, 0, 0}, {{"-c"}, 1, 0}, {{"-a"}, 2, 0}, {{"-C"}, 0, 1}, {{"-A"}, 0, 2}, {{"-c", "-C"}, 1, 1}, {{"-c", "-A"}, 1, 2}, {{"-a", "-C"}, 2, 1}, {{"-a", "-A"}, 2, 2}};
  auto &o = opts[vp_choice(0, 8, "create")]; int rc = run("genre", args_t{"-w", "17"} + o.a + all_tags(n) + args_t{F}); vp_assert(rc == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind");
  found r = look(F); bytes z = after_audio(r, f);
  bool new2 = !n && (o.v2 == 2 || (o.v2 == 1 && v1)), new1 = !v1 && (o.v1 == 2 || (o.v1 == 1 && n));
  vp_assert((int)r.tags.size() == n + new2, "an ID3v2 tag is made only when asked for");
  for (int i = 0; i < n; ++i) genre_set(r.tags[i], f.tags[i], "Rock");
  if (new2) { has_text(r.tags[0], "TCO", "TCON", "Rock"); if (v1) { carried_over(r.tags[0], f.v1); vp_cover("ID3v2 tag made from the ID3v1 tag"); } else { vp_assert(r.tags[0].ver == 3 && r.tags[0].frames.size() == 1, "a new tag holds the genre only"); vp_cover("ID3v2 tag made"); } }
  if (v1) v1_genre_set(z, f.v1, 17); else if (!new1) vp_assert(z.empty(), "something was added after the audio");
  else {
    vp_assert(z.size() == 128 && z.substr(0, 3) == "TAG" && (u8)z[127] == 17, "an ID3v1 tag with the genre");
    if (n) { vp_assert(same(v1_title(z), ti) & same(v1_artist(z), ar) & v1_album(z).empty() & v1_comment(z).empty(), "the ID3v1 tag says what the ID3v2 tags say"); vp_cover("ID3v1 tag made from the ID3v2 tags"); }
    else { vp_assert(same(z.substr(3, 124), bytes(124, 0)), "a new tag holds the genre only"); vp_cover("ID3v1 tag made"); }
  }
}
// which genre
void h_genre_number() {
  vpfs::reset(); mp3 f = both(); vpfs::put(F, f.all()); snapshot was; unsigned v; std::string d = digits(vp_choice(1, 3, "digits"), v);
  int rc = run("genre", all_tags() + args_t{"-w", d, F});
  if (v > 191) { vp_assert(rc != 0, "a genre that does not exist is refused"); was.untouched(); vp_cover("refused"); return; }
  vp_assert(rc == 0, "the command fails"); v = vp_conc(v); both_set(f, *scribbu::text_for_genre(v), v); vp_cover("set by number");
}
void h_genre_match() {
  vpfs::reset(); mp3 f = both(); vpfs::put(F, f.all()); snapshot was; std::string t("rock"); for (char &c : t) { u8 up = vp_any<u8>("case"); vp_assume(up == 0 || up == 32); c -= up; }
  if (vp_flag("typo")) t += "k";
  vp_assert(run("genre", all_tags() + args_t{"-g", t, F}) == 0, "the command fails"); both_set(f, "Rock", 17); vp_cover("set by name");
}
void h_genre_text() {
  vpfs::reset(); mp3 f = both(); vpfs::put(F, f.all()); snapshot was; std::string t = vp_flag("long") ? "Trip-Ho" + word(1, "text") : word(1, "text"); int k = vp_choice(0, 2, "v1"); unsigned v = 0; args_t a{"-G", t};
  if (k) { std::string d = digits(k == 1 ? 1 : 3, v); a = a + args_t{"--v1", d}; }
  vp_assume(t[0] != '-'); int rc = run("genre", all_tags() + a + args_t{F});
  if (v > 255) { vp_assert(rc != 0, "a genre that does not exist is refused"); was.untouched(); vp_cover("no such genre"); return; }
  vp_assert(rc == 0, "the command fails"); both_set(f, t, k && v != 255 ? (u8)v : std::get<1>(scribbu::match_winamp_genre(t))); vp_cover("set as given");
}
// what cannot be
void h_genre_usage() {
  vpfs::reset(); mp3 f = both(); vpfs::put(F, f.all()); snapshot was;
  static const args_t bad[] = {{F}, {"-w", "17", "-g", "Rock", F}, {"-w", "17", "-G", "Rock", F}, {"-g", "Rock", "-G", "Rock", F}, {"-w", "x", F}, {"-w", "-1", F}, {"-w", "17x", F}, {F, "-w"}, {"-w", "17", "--nosuch", F}, {"-w", "17", "-1", "-2", F}, {"-w", "17", "-1", "-t", "0", F}, {"-w", "17", "-c", "-a", F}, {"-w", "17", "-C", "-A", F}, {"-w", "17"}, {"-w", "17", "-t", "x", F}};
  vp_assert(run("genre", bad[vp_choice(0, 14, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
// how
void h_genre_how() {
  vpfs::reset(); mp3 f; int n = vp_choice(1, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 1, "kind"))); f.audio = some_audio(2); bool enh = vp_flag("enhanced"); f.v1 = mk_v1(vp_any<u8>("genre"));
  if (enh) { bytes e("TAG+"); e += bytes(180, 'x'); e += bytes(1, 2); bytes g("Metal"); g.resize(30, 0); e += g + bytes(12, '0'); f.v1 = e + f.v1; }
  vpfs::put(F, f.all()); snapshot was; bool dry = vp_flag("dry run"), keep = vp_flag("backup"), uns = vp_flag("unsync"), vb = vp_flag("verbose"); args_t a{"-w", "17"}; if (dry) a.push_back("-n"); if (keep) a.push_back("-b"); if (uns) a.push_back("-u"); if (vb) a.push_back("-v");
  vp_assert(run("genre", a + all_tags(n) + args_t{keep && vp_flag("directory") ? "/w" : F}) == 0, "the command fails");
  if (dry) { was.untouched(); vp_cover("nothing done"); return; }
  if (keep) { was.backed_up(F); vp_cover("backup kept"); } else vp_assert(was.added().empty(), "files are left behind");
  found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed"); for (int i = 0; i < n; ++i) genre_set(r.tags[i], f.tags[i], "Rock");
  bytes z = after_audio(r, f); v1_genre_set(z, f.v1, 17); if (enh) { vp_assert(same(z.substr(0, 185), f.v1.substr(0, 185)) & same(z.substr(215, 12), f.v1.substr(215, 12)), "the enhanced ID3v1 tag was changed beyond its genre"); bytes g("Rock"); g.resize(30, 0); vp_assert(same(z.substr(185, 30), g), "the enhanced ID3v1 tag's genre"); vp_cover("enhanced ID3v1 tag"); }
}
// several files, and directories
void h_genre_files() {
  vpfs::reset(); mp3 f[3]; const char *name[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.mp3"}; for (int i = 0; i < 3; ++i) { f[i].tags.push_back(some_tag(3, 1)); f[i].audio = some_audio(1); vpfs::put(name[i], f[i].all()); } snapshot was;
  static const struct { args_t a; int which; } cases[] = {{{"/w/a.mp3"}, 1}, {{"a.mp3", "sub/c.mp3"}, 5}, {{"/w"}, 7}, {{"/w/sub"}, 6}, {{"sub", "a.mp3"}, 7}, {{"--", "sub/b.mp3"}, 2}}; auto &c = cases[vp_choice(0, 5, "arguments")];
  vp_assert(run("genre", args_t{"-w", "17"} + c.a) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind");
  for (int i = 0; i < 3; ++i) { found r = look(name[i]); vp_assert(r.tags.size() == 1, "the number of tags changed"); if (c.which & 1 << i) genre_set(r.tags[0], f[i].tags[0], "Rock"); else tag_same(r.tags[0], f[i].tags[0]); vp_assert(after_audio(r, f[i]).empty(), "something was added after the audio"); } vp_cover("several files");
}
// something fails while at it
void h_genre_fault() {
  vpfs::reset(); mp3 f = both(); vpfs::put(F, f.all()); snapshot was; bool keep = vp_flag("backup"); args_t a{"-w", "17"}; if (keep) a.push_back("-b");
  vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("genre", a + args_t{F}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0;
  if (rc == 0) { both_set(f, "Rock", 17); if (keep) { bool ok = false; for (auto &x : was.added()) ok |= same(vpfs::find(x)->data, was.v[0].data); vp_assert(ok, "success is reported without the backup asked for"); } if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
