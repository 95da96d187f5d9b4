// P22: the play count and rating command.
#include "cmd.hh"
static const std::string F("/w/a.mp3");
typedef unsigned long long u64t;
static bool pcnt(const frame &f) { return is(f, "CNT", "PCNT"); }
static bool popm(const frame &f) { return is(f, "POP", "POPM"); }
struct pop { bytes owner; int rating = -1; u64t count = 0; };
static pop pop_of(const bytes &b) { pop r; std::size_t i = 0; while (i < b.size() && b[i] != 0) r.owner += b[i++]; vp_assert(i + 2 <= b.size(), "a popularimeter has a rating"); r.rating = (u8)b[i + 1]; vp_assert(b.size() - i - 2 <= 8, "a play count"); r.count = number(b.substr(i + 2)); return r; }
static frame pcnt_frame(int ver, const bytes &n) { return mk("CNT", "PCNT", ver, n); }
static frame popm_frame(int ver, const bytes &o, u8 r, const bytes &n) { return mk("POP", "POPM", ver, o + nul() + bytes(1, (char)r) + n); }
// what was asked for
struct ask { bool abs = false; u64t n = 1; int rating = -1; bool p = true, m = true; bool any = true; bytes owner; bool make = false; u64t of(u64t was) const { return abs ? n : was + n; } };
static void counted(const bytes &b, u64t n) { vp_assert(number(b) == n, "the play count is not the one asked for"); }
static void is_pop(const bytes &b, const bytes &o, int r, u64t n) { pop q = pop_of(b); vp_assert(same(q.owner, o), "the owner is another"); vp_assert(q.rating == r, "the rating is not the one asked for"); counted(b.substr(o.size() + 2), n); }
// every frame asked for changed, everything else as it was
static void is_done(const content &c, const sample &s, const ask &a) {
  vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, [](const frame &f) { return pcnt(f) || popm(f); });
  std::vector<const frame *> now, old; for (auto &f : c.frames) if (pcnt(f) || popm(f)) now.push_back(&f); for (auto &f : s.frames) if (pcnt(f) || popm(f)) old.push_back(&f);
  vp_assert(now.size() >= old.size(), "a counter is lost"); bool np = false, nm = false; u64t top = 0;
  for (std::size_t i = 0; i < old.size(); ++i) {
    const bytes &b = now[i]->body, &w = old[i]->body; vp_assert(same(now[i]->id, old[i]->id), "a counter is another"); if (pcnt(*old[i])) { np = true; u64t n = number(w); if (a.p) { n = a.of(n); counted(b, n); vp_cover("count changed"); } else { vp_assert(same(b, w), "a play count was changed that should not be"); vp_cover("count left alone"); } if (n > top) top = n; }
    else { pop q = pop_of(w); bool mine = a.m && (a.any || q.owner == a.owner); nm |= mine; u64t n = q.count; if (mine) { n = a.of(n); is_pop(b, q.owner, a.rating < 0 ? q.rating : a.rating, n); vp_cover("popularimeter changed"); } else { vp_assert(same(b, w), "a popularimeter was changed that should not be"); vp_cover("popularimeter left alone"); } if (n > top) top = n; }
  }
  std::size_t at = old.size(); if (!top) top = a.n;
  if (a.make && a.p && !np) { vp_assert(at < now.size() && pcnt(*now[at]), "no play count was made"); counted(now[at++]->body, top); vp_cover("count made"); }
  if (a.make && a.m && !nm && !a.any && a.rating >= 0) { vp_assert(at < now.size() && popm(*now[at]), "no popularimeter was made"); is_pop(now[at++]->body, a.owner, a.rating, top); vp_cover("popularimeter made"); }
  vp_assert(at == now.size(), "a counter was made that was not asked for");
}
// a counter about to need another byte, full of what looks like a sync
static bytes low(const char *nm) { return bytes("\0\0\xff", 3) + any_text(1, nm); }
static sample some_tag(int ver, int k) {
  frame o = other_frame(ver, 1); std::vector<frame> v; bytes n("\0\0\1\2", 4), m("\0\0\1\3", 4);
  if (k == 0) v = {o}; else if (k == 1) v = {pcnt_frame(ver, n), o}; else if (k == 2) v = {o, popm_frame(ver, "o", 7, m)}; else if (k == 3) v = {popm_frame(ver, "o", 7, m), o, pcnt_frame(ver, n), popm_frame(ver, "p", 8, n)}; else v = {popm_frame(ver, "p", 8, n), o};
  return mk_tag(ver, v, 40);
}
static const ask none;
extern "C" {
// which tags, which frames
void h_popm_scope() {
  vpfs::reset(); mp3 f; int n = vp_choice(0, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(n == 2 ? 1 : 0, n == 2 ? 3 : 4, "kind"))); bool v1 = vp_flag("v1"); f.audio = some_audio(2); if (v1) f.v1 = mk_v1(9); vpfs::put(F, f.all()); vpfs::put("/w/b.mp3", "other"); snapshot was;
  scope sc = by_index(); ask q; args_t a; int pol = n == 2 ? 0 : vp_choice(0, 2, "which"); if (pol == 1) { q.m = false; a.push_back("-p"); } else if (pol == 2) { q.p = false; a.push_back("-m"); } bool owned = vp_flag("owned"); if (owned) { q.any = false; q.owner = "o"; a = a + args_t{"-o", "o"}; } if (n == 2 ? owned : vp_flag("rated")) { q.rating = vp_any<u8>("rating"); std::string d; d += '0' + q.rating / 100; d += '0' + q.rating / 10 % 10; d += '0' + q.rating % 10; a = a + args_t{"-r", d}; }
  vp_assert(run("popm", a + sc.args + args_t{F}) == 0, "the command fails"); was.kept({F}); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed");
  for (std::size_t i = 0; i < r.tags.size(); ++i) if (sc.in(i)) is_done(r.tags[i], f.tags[i], q); else { tag_same(r.tags[i], f.tags[i]); vp_cover("tag out of scope"); }
  vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed");
}
// how many
void h_popm_count() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); static const int sizes[] = {0, 1, 2, 4, 5}; int nb = sizes[vp_choice(0, 4, "bytes")]; bytes c = any_text(nb, "count"), d("\0\0\3\xff", 4); bool play = nb && vp_flag("play"); u8 rt = vp_any<u8>("rating"); f.tags.push_back(mk_tag(ver, {pcnt_frame(ver, play ? c : d), other_frame(ver, 1), popm_frame(ver, "o", rt, play ? d : c)}, 40)); f.audio = some_audio(1); vpfs::put(F, f.all());
  // a long counter with a fixed number, a short one with arbitrary digits
  ask q; args_t a; int how = vp_choice(0, 3, "how"); if (how) { unsigned v = 255; std::string t("255"); if (nb < 2 && how < 3) t = digits(nb ? 1 : vp_choice(1, 3, "digits"), v); q.n = v; if (how == 3) { t = "5000000000"; q.n = 5000000000ull; } q.abs = how >= 2; a = ver == 3 ? args_t{(q.abs ? "--count=" : "--increment=") + t} : args_t{q.abs ? "-C" : "-i", t}; }
  vp_assert(run("popm", a + args_t{F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_done(r.tags[0], f.tags[0], q); vp_assert(after_audio(r, f).empty(), "something was added after the audio"); vp_cover("counted");
}
// twice in a row
void h_popm_twice() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); bytes c = low("count"); f.tags.push_back(mk_tag(ver, {pcnt_frame(ver, c), popm_frame(ver, "o", vp_any<u8>("rating"), c), other_frame(ver, 1)}, 40)); f.audio = some_audio(1); vpfs::put(F, f.all()); ask q; q.n = 2;
  for (int i = 0; i < 2; ++i) vp_assert(run("popm", {F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_done(r.tags[0], f.tags[0], q); vp_cover("twice");
}
// ratings as numbers and as stars
void h_popm_rating() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); f.tags.push_back(mk_tag(ver, {popm_frame(ver, "o", vp_any<u8>("old"), bytes("\0\0\0\1", 4)), other_frame(ver, 1)}, 40)); f.audio = some_audio(1); vpfs::put(F, f.all()); snapshot was; bool stars = vp_flag("stars"); std::string t; int want = -1;
  if (stars) { int n = vp_choice(1, 6, "stars"); char c = (char)vp_any<u8>("star"); vp_assume(!(c >= '0' && c <= '9') && c != 0 && c != '-'); t = std::string(n, c); static const int v[] = {1, 64, 128, 196, 255}; bool ok = (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '@') | (c == '#') | (c == '%') | (c == '*') | (c == '+'); if (n <= 5 && ok) want = v[n - 1]; } else { unsigned v; t = digits(vp_choice(1, 4, "digits"), v); if (v <= 255) want = v; }
  int rc = run("popm", {"-r", t, F}); if (want < 0) { vp_assert(rc != 0, "a rating that makes no sense is refused"); was.untouched(); vp_cover("refused rating"); return; } vp_assert(rc == 0, "the command fails"); found r = look(F); ask q; q.rating = want; is_done(r.tags[0], f.tags[0], q); vp_cover("rated");
}
// frames that are not there
void h_popm_frame() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"), k = vp_choice(0, 3, "kind"); bytes c = low("count"); frame o = other_frame(ver, 1); std::vector<frame> v; if (k == 0) v = {o}; else if (k == 1) v = {pcnt_frame(ver, c), o}; else if (k == 2) v = {popm_frame(ver, "o", 7, c), o}; else v = {popm_frame(ver, "o", 7, c), o, pcnt_frame(ver, c)};
  f.tags.push_back(mk_tag(ver, v, 40)); f.audio = some_audio(1); vpfs::put(F, f.all()); ask q; q.make = true; args_t a{"-f"}; int pol = vp_choice(0, 2, "which"); if (pol == 1) { q.m = false; a.push_back("-p"); } else if (pol == 2) { q.p = false; a.push_back("-m"); } int own = vp_choice(0, 2, "owner"); if (own) { q.any = false; q.owner = own == 1 ? "o" : "q"; a = a + args_t{"-o", q.owner}; } if (vp_flag("rated")) { q.rating = 196; a = a + args_t{"-r", "****"}; } int how = vp_choice(0, 1, "how"); if (how == 1) { unsigned n; std::string t = digits(2, n); vp_assume(n != 0); q.n = n; a = a + args_t{"-i", t}; }
  vp_assert(run("popm", a + args_t{F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_done(r.tags[0], f.tags[0], q); vp_cover("frames made");
}
// tags that are not there
void h_popm_create() {
  vpfs::reset(); mp3 f; bool v1 = vp_flag("v1"), v2 = vp_flag("v2"); f.audio = some_audio(2); if (v2) f.tags.push_back(some_tag(3, vp_choice(0, 1, "kind"))); if (v1) f.v1 = mk_v1(9, word(1, "title"), word(2, "artist")); vpfs::put(F, f.all()); snapshot was; ask q; args_t a; int o = vp_choice(0, 2, "create"); static const args_t opts[] = {{}, {"-c"}, {"-a"}};
  if (vp_flag("abs")) { unsigned n; std::string t = digits(2, n); vp_assume(n != 0); q.abs = true; q.n = n; a = a + args_t{"-C", t}; } bool rated = vp_flag("rated"); if (rated) { q.any = false; q.owner = "me"; q.rating = 9; a = a + args_t{"-o", "me", "-r", "9"}; }
  vp_assert(run("popm", a + opts[o] + all_tags() + args_t{F}) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed"); bool made = !v2 && (o == 2 || (o == 1 && v1)); vp_assert(r.tags.size() == (v2 || made ? 1u : 0u), "an ID3v2 tag is made only when asked for");
  if (v2) is_done(r.tags[0], f.tags[0], q);
  if (made) { const content &c = r.tags[0]; auto x = all_of(c, "CNT", "PCNT"), y = all_of(c, "POP", "POPM"); vp_assert(x.size() == 1, "a new tag has a play count"); counted(x[0]->body, q.n); vp_assert(y.size() == (rated ? 1u : 0u), "a new tag has a popularimeter when there is a rating"); if (rated) is_pop(y[0]->body, "me", 9, q.n); if (v1) { carried_over(c, f.v1); vp_cover("made from the ID3v1 tag"); } else { vp_assert(c.ver == 3 && c.frames.size() == 1 + y.size(), "a new tag holds what was asked for only"); vp_cover("made"); } }
}
void h_popm_how() {
  vpfs::reset(); mp3 f; int n = vp_choice(1, 2, "tags"); for (int i = 0; i < n; ++i) { int ver = vp_choice(2, 4, "version"); bytes c = low("count"); std::vector<frame> v{other_frame(ver, 1)}; if (!i || vp_flag("both")) v.push_back(pcnt_frame(ver, c)); f.tags.push_back(mk_tag(ver, v, 20)); } f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was;
  bool dry = vp_flag("dry"), keep = vp_flag("backup"), uns = vp_flag("unsync"), vb = vp_flag("verbose"); args_t a; if (dry) a.push_back("-n"); if (keep) a.push_back("-b"); if (uns) a.push_back("-u"); if (vb) a.push_back("-v"); capture cap; int ch = vpfs::changes; vp_assert(run("popm", a + all_tags(n) + args_t{keep && vp_flag("directory") ? "/w" : F}) == 0, "the command fails"); if (dry) { was.untouched(); vp_assert(vpfs::changes == ch, "a dry run changes the file system"); vp_cover("dry run"); return; }
  if (keep) { was.backed_up(F); vp_cover("backup kept"); } else vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed"); for (int i = 0; i < n; ++i) is_done(r.tags[i], f.tags[i], none); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed");
}
void h_popm_usage() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(3, 3)); f.audio = some_audio(1); vpfs::put(F, f.all()); snapshot was;
  static const args_t bad[] = {{}, {"-p", "-m", F}, {"-C", "1", "-i", "1", F}, {"-c", "-a", F}, {"-t", "y", F}, {"--nosuch", F}, {F, "-C"}, {"-i", "x", F}, {"-C", "1", "-C", "2", F}, {"-r", "256", F}, {"-r", "", F}, {"-r", "a b", F}};
  vp_assert(run("popm", bad[vp_choice(0, 11, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
void h_popm_fault() {
  vpfs::reset(); mp3 f; bytes c = low("count"); f.tags.push_back(mk_tag(3, {other_frame(3, 1), pcnt_frame(3, c)}, vp_flag("room") ? 20 : 0)); f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; bool keep = vp_flag("backup"); args_t a{"-f", "-o", "oo", "-r", "5"}; ask q; q.make = true; q.any = false; q.owner = "oo"; q.rating = 5; if (keep) a.push_back("-b");
  vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("popm", a + args_t{F}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0;
  if (rc == 0) { found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_done(r.tags[0], f.tags[0], q); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed"); if (keep) { bool ok = false; for (auto &x : was.added()) ok |= same(vpfs::find(x)->data, was.v[0].data); vp_assert(ok, "success is reported without the backup asked for"); } if (!hit) vp_cover("no fault"); }
  else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
