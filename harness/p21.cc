// P21: the tag cloud command.
#include "cmd.hh"
static const std::string F("/w/a.mp3");
typedef std::vector<std::pair<bytes, std::vector<bytes>>> cloud_t;
struct cloud { bytes owner; cloud_t keys; };
static bool xtag(const frame &f) { return is(f, "XTG", "XTAG"); }
static frame cloud_frame(int ver, const cloud &c) { bytes k; for (auto &x : c.keys) k += raw_key(x.first, x.second); return mk("XTG", "XTAG", ver, raw_cloud(c.owner, k)); }
static cloud cloud_of(const bytes &b) {
  cloud r; std::size_t i = 1; auto text = [&] { bytes t; while (i < b.size() && b[i] != 0) t += b[i++]; vp_assert(i < b.size(), "text in a tag cloud is not ended"); ++i; return t; };
  vp_assert(b.size() >= 2 && b[0] == 1, "a tag cloud has a version"); r.owner = text();
  while (i < b.size()) { bytes k = text(); vp_assert(i + 4 <= b.size(), "a tag has a size"); unsigned n = vp_conc(unsigned((u8)b[i]) << 24 | (u8)b[i + 1] << 16 | (u8)b[i + 2] << 8 | (u8)b[i + 3]); i += 4; std::size_t e = i + n; vp_assert(e <= b.size(), "the size of a tag is right"); std::vector<bytes> v; while (i < e) v.push_back(text()); vp_assert(i == e, "the size of a tag is right"); r.keys.push_back({k, v}); }
  return r;
}
// tags and values are in no particular order
static bool one_of(const std::vector<bytes> &v, const bytes &x) { bool r = false; for (auto &y : v) r |= same(x, y); return r; }
static bool alike(const std::vector<bytes> &a, const std::vector<bytes> &b) { bool r = true; for (auto &x : a) r &= one_of(b, x); for (auto &x : b) r &= one_of(a, x); return r; }
static void is_cloud(const cloud &c, const bytes &owner, const cloud_t &want) {
  vp_assert(same(c.owner, owner), "the owner of a tag cloud was changed"); for (auto &w : want) { bool ok = false; for (auto &k : c.keys) ok |= same(k.first, w.first) & alike(k.second, w.second); vp_assert(ok, "a tag is not what was asked for"); }
  for (auto &k : c.keys) { bool ok = false; for (auto &w : want) ok |= same(k.first, w.first); vp_assert(ok, "a tag is there that should not be"); for (auto &j : c.keys) vp_assert(&j == &k || !same(j.first, k.first), "a tag is there twice"); for (std::size_t a = 0; a < k.second.size(); ++a) for (std::size_t b = 0; b < a; ++b) vp_assert(!same(k.second[a], k.second[b]), "a value is there twice"); }
}
static void put_value(std::vector<bytes> &v, const bytes &x) { for (auto &y : v) if (same(x, y)) return; v.push_back(x); }
static void put(cloud_t &c, const bytes &key, const std::vector<bytes> &vals) { for (auto &k : c) if (same(k.first, key)) { for (auto &x : vals) put_value(k.second, x); return; } c.push_back({key, {}}); for (auto &x : vals) put_value(c.back().second, x); }
static cloud_t after(const cloud_t &was, const cloud_t &asked, bool merge) { cloud_t r; if (merge) r = was; for (auto &a : asked) put(r, a.first, a.second); return r; }
static char tag_char(const char *nm) { u8 c = vp_any<u8>(nm); vp_assume((c >= 'a' && c <= 'z') | (c >= '0' && c <= '9') | (c == '-')); return (char)c; }
// an existing cloud
static cloud old_cloud(const char *owner) { return cloud{owner, {{"k", {"v"}}, {"z", {}}}}; }
static sample some_tag(int ver, int k, const bytes &owner2 = "p") {
  frame o = other_frame(ver, 1); cloud a = old_cloud("o"), b = old_cloud("p"); b.owner = owner2; std::vector<frame> v;
  if (k == 0) v = {o}; else if (k == 1) v = {cloud_frame(ver, a), o}; else if (k == 2) v = {o, cloud_frame(ver, b)}; else v = {cloud_frame(ver, a), o, cloud_frame(ver, b)};
  return mk_tag(ver, v, 30);
}
// every cloud with the right owner changed, the others and the other frames as they were; ok to be made when there was none
static void is_set(const content &c, const sample &s, const std::string &owner, bool any, const cloud_t &asked, bool merge, bool make) {
  vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, xtag); std::vector<const frame *> now = all_of(c, "XTG", "XTAG"), old; for (auto &f : s.frames) if (xtag(f)) old.push_back(&f);
  bool hit = false; vp_assert(now.size() >= old.size(), "a tag cloud is lost");
  for (std::size_t i = 0; i < old.size(); ++i) { cloud w = cloud_of(old[i]->body); bool mine = any || w.owner == owner; hit |= mine; if (mine) { is_cloud(cloud_of(now[i]->body), w.owner, after(w.keys, asked, merge)); vp_cover("cloud changed"); } else { vp_assert(same(now[i]->body, old[i]->body), "a tag cloud of another owner was changed"); vp_cover("other owner's cloud"); } }
  if (!hit && make) { vp_assert(now.size() == old.size() + 1, "no tag cloud was made"); is_cloud(cloud_of(now.back()->body), owner, after({}, asked, false)); vp_cover("cloud made"); } else vp_assert(now.size() == old.size(), "a tag cloud was made that was not asked for");
}
static std::string hex(u8 c) { static const char *d = "0123456789abcdef"; return std::string("%") + d[c >> 4] + d[c & 15]; }
static bytes unescape(const bytes &s) { bytes r; auto h = [](u8 c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { r += (char)(h(s[i + 1]) << 4 | h(s[i + 2])); i += 2; } else r += s[i]; return r; }
static cloud_t parse(const bytes &t) { cloud_t r; bytes tok, key; bool val = false; for (std::size_t i = 0; i <= t.size(); ++i) { char c = i < t.size() ? t[i] : '&'; if (!val && c == '=') { r.push_back({unescape(tok), {}}); tok.clear(); val = true; } else if (c == '&' || (val && c == ',')) { if (val) r.back().second.push_back(unescape(tok)); else r.push_back({unescape(tok), {}}); tok.clear(); if (c == '&') val = false; } else tok += c; } return r; }
extern "C" {
// which tags, which clouds
void h_xtag_scope() {
  vpfs::reset(); mp3 f; int n = vp_choice(0, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 3, "kind"))); bool v1 = vp_flag("v1"); f.audio = some_audio(2); if (v1) f.v1 = mk_v1(9); vpfs::put(F, f.all()); vpfs::put("/w/b.mp3", "other"); snapshot was;
  scope sc = by_index(); int o = n == 2 ? vp_choice(0, 1, "owner") : vp_choice(0, 2, "owner"); bool make = n < 2 && vp_flag("create"), merge = n < 2 && vp_flag("merge"); static const args_t owners[] = {{}, {"-o", "o"}, {"-o", "n"}}; bytes v(1, tag_char("value")); args_t a{"-T", "k=" + v}; if (make) a.push_back("-f"); if (merge) a.push_back("-m");
  vp_assert(run("xtag", a + sc.args + owners[o] + args_t{F}) == 0, "the command fails"); was.kept({F}); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed");
  for (std::size_t i = 0; i < r.tags.size(); ++i) if (sc.in(i)) is_set(r.tags[i], f.tags[i], o ? owners[o][1] : "", !o, {{"k", {v}}}, merge, make); else { tag_same(r.tags[i], f.tags[i]); vp_cover("tag out of scope"); }
  vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed");
}
// which owner: compared as a whole
void h_xtag_owner() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); bytes own = word(vp_choice(0, 2, "length"), "owner"); f.tags.push_back(some_tag(ver, 3, own)); f.audio = some_audio(1); vpfs::put(F, f.all()); std::string o = word(vp_choice(1, 2, "asked length"), "asked"); vp_assume(o[0] != '-');
  vp_assert(run("xtag", {"-T", "n=1", "-o", o, F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_set(r.tags[0], f.tags[0], o, false, {{"n", {"1"}}}, false, false); vp_cover("owner");
}
// which tags and values
void h_xtag_cloud() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); cloud old{"o", {}}; bytes k0(1, tag_char("key")), v0(1, tag_char("old value")); int had = vp_choice(0, 2, "had"); if (had == 1) old.keys = {{k0, {v0}}}; else if (had == 2) { vp_assume(k0[0] < 'y' && k0[0] != '-'); old.keys = {{k0, {v0}}, {"z", {}}}; }
  f.tags.push_back(mk_tag(ver, {cloud_frame(ver, old), other_frame(ver, 1)}, 30)); f.audio = some_audio(1); vpfs::put(F, f.all()); bytes k(1, tag_char("key")), v(1, tag_char("value")), w(1, tag_char("value")); bool merge = vp_flag("merge");
  static const char *forms[] = {"k", "k=v", "k=v,w", "k&z=v", "k=v&z", "k=v&z=w,v", "k=v&k=w", "k=vw"}; int form = vp_choice(0, 7, "form"); if (form >= 3 && form <= 5) vp_assume(k[0] != 'z'); std::string t; cloud_t asked; for (const char *p = forms[form]; *p; ++p) t += *p == 'k' ? k : *p == 'v' ? v : *p == 'w' ? w : bytes(1, *p);
  if (form == 0) asked = {{k, {}}}; else if (form == 1) asked = {{k, {v}}}; else if (form == 2 || form == 6) asked = {{k, {v, w}}}; else if (form == 3) asked = {{k, {}}, {"z", {v}}}; else if (form == 4) asked = {{k, {v}}, {"z", {}}}; else if (form == 5) asked = {{k, {v}}, {"z", {w, v}}}; else asked = {{k, {v + w}}};
  args_t a{"--xtags=" + t}; if (merge) a.push_back("--merge"); vp_assert(run("xtag", a + args_t{F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_set(r.tags[0], f.tags[0], "", true, asked, merge, false); vp_assert(after_audio(r, f).empty(), "something was added after the audio"); vp_cover("cloud");
}
// any character, written as an escape
void h_xtag_escape() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(vp_choice(2, 4, "version"), 1)); f.audio = some_audio(1); vpfs::put(F, f.all()); snapshot was; u8 c = vp_any<u8>("character"); bool key = vp_flag("key"); std::string e = hex(c);
  int rc = run("xtag", {"-T", key ? "k" + e + "=1" : "k=a" + e + "b", F}); if (c == 0) { vp_assert(rc != 0, "text that cannot be stored is refused"); was.untouched(); vp_cover("refused text"); return; }
  vp_assert(rc == 0, "the command fails"); found r = look(F); bytes x(1, (char)c); cloud_t asked; if (key) asked = {{"k" + x, {"1"}}}; else asked = {{"k", {"a" + x + "b"}}}; is_set(r.tags[0], f.tags[0], "", true, asked, false, false); vp_cover("escape");
}
// printing changes nothing
void h_xtag_get() {
  vpfs::reset(); mp3 f; int n = vp_choice(0, 2, "tags"); bytes v = any_text(1, "value"); vp_assume(v[0] != 0); for (int i = 0; i < n; ++i) { int ver = vp_choice(2, 4, "version"), k = vp_choice(0, 2, "kind"); cloud a = old_cloud("o"), b = old_cloud("p"); a.keys[0].second[0] = v; a.keys.push_back({"zz", {"x", "y"}}); std::vector<frame> fs{other_frame(ver, 1)}; if (k) fs.push_back(cloud_frame(ver, a)); if (k == 2) fs.push_back(cloud_frame(ver, b)); f.tags.push_back(mk_tag(ver, fs, 3)); }
  f.audio = some_audio(1); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; scope sc = by_index(); int o = vp_choice(0, 1, "owner"); static const args_t owners[] = {{}, {"-o", "p"}}; int changes = vpfs::changes;
  capture cap; int rc = run("xtag", args_t{"-g"} + sc.args + owners[o] + args_t{F}); std::string out = cap.text(); vp_assert(rc == 0, "the command fails"); was.untouched(); vp_assert(vpfs::changes == changes, "the file system is changed"); std::vector<bytes> lines; bytes cur; for (char c : out) if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; vp_assert(cur.empty(), "a line is not ended");
  std::size_t at = 0; for (int i = 0; i < n; ++i) if (sc.in(i)) for (auto &x : f.tags[i].frames) if (xtag(x)) { cloud w = cloud_of(x.body); if (o && w.owner != "p") continue; vp_assert(at < lines.size(), "a tag cloud is not printed"); cloud got{w.owner, parse(lines[at++])}; is_cloud(got, w.owner, w.keys); vp_cover("cloud printed"); }
  vp_assert(at == lines.size(), "something else is printed");
}
// tags that are not there
void h_xtag_create() {
  vpfs::reset(); mp3 f; bool v1 = vp_flag("v1"), v2 = vp_flag("v2"); f.audio = some_audio(2); if (v2) f.tags.push_back(some_tag(3, vp_choice(0, 1, "kind"))); if (v1) f.v1 = mk_v1(9, word(1, "title"), word(2, "artist")); vpfs::put(F, f.all()); snapshot was;
  int o = vp_choice(0, 2, "create"); static const args_t opts[] = {{}, {"-c"}, {"-A"}}; bool fr = vp_flag("frame"), own = vp_flag("owned"); bytes v(1, tag_char("value")); args_t a{"-T", "k=" + v}; if (fr) a.push_back("-f"); if (own) { a.push_back("-o"); a.push_back("me"); }
  vp_assert(run("xtag", a + opts[o] + args_t{F}) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed"); bool made = !v2 && (o == 2 || (o == 1 && v1)); vp_assert(r.tags.size() == (v2 || made ? 1u : 0u), "an ID3v2 tag is made only when asked for"); std::string who = own ? "me" : "";
  if (v2) is_set(r.tags[0], f.tags[0], who, !own, {{"k", {v}}}, false, fr);
  if (made) { auto x = all_of(r.tags[0], "XTG", "XTAG"); vp_assert(x.size() == 1, "a new tag has one tag cloud"); is_cloud(cloud_of(x[0]->body), who, {{"k", {v}}}); if (v1) { carried_over(r.tags[0], f.v1); vp_cover("made from the ID3v1 tag"); } else { vp_assert(r.tags[0].ver == 3 && r.tags[0].frames.size() == 1, "a new tag holds what was asked for only"); vp_cover("made"); } }
}
void h_xtag_how() {
  vpfs::reset(); mp3 f; int n = vp_choice(1, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 1, "kind"))); f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; bool dry = vp_flag("dry"), keep = vp_flag("backup"), uns = vp_flag("unsync"), make = vp_flag("create"); bytes v(1, tag_char("value"));
  args_t a{"-T", "k=" + v + "%ff%f0"}; if (dry) a.push_back("-n"); if (keep) a.push_back("-b"); if (uns) a.push_back("-u"); if (make) a.push_back("-f"); capture cap; int ch = vpfs::changes; vp_assert(run("xtag", a + args_t{keep && vp_flag("directory") ? "/w" : F}) == 0, "the command fails"); if (dry) { was.untouched(); vp_assert(vpfs::changes == ch, "a dry run changes the file system"); vp_cover("dry run"); return; }
  bool any = make; for (auto &t : f.tags) for (auto &x : t.frames) any |= xtag(x); if (keep && any) { was.backed_up(F); vp_cover("backup kept"); } else if (!keep) vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed"); for (int i = 0; i < n; ++i) is_set(r.tags[i], f.tags[i], "", true, {{"k", {v + "\xff\xf0"}}}, false, make); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed");
}
void h_xtag_usage() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(3, 1)); f.audio = some_audio(1); vpfs::put(F, f.all()); snapshot was;
  static const args_t bad[] = {{"-T", "x"}, {F}, {"-g"}, {"-T", "x", "-c", "-A", F}, {"-T", "x", "-t", "y", F}, {"-T", "x", "--nosuch", F}, {F, "-T"}, {"-T", "x&x", F}, {"-T", "x&y&x", "-m", F}, {"-T", "x", "-T", "y", F}, {"-t", "0", F}, {"-T", "x", "-o", "a", "-o", "b", F}};
  vp_assert(run("xtag", bad[vp_choice(0, 11, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
void h_xtag_fault() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(3, 1)); f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; bool keep = vp_flag("backup"); bytes v = vp_flag("long") ? bytes(60, 'n') : bytes(1, tag_char("value")); args_t a{"-T", "k=" + v}; if (keep) a.push_back("-b");
  vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("xtag", a + args_t{F}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0;
  if (rc == 0) { found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_set(r.tags[0], f.tags[0], "", true, {{"k", {v}}}, false, false); vp_assert(same(after_audio(r, f), f.v1), "the ID3v1 tag was changed"); if (keep) { bool ok = false; for (auto &x : was.added()) ok |= same(vpfs::find(x)->data, was.v[0].data); vp_assert(ok, "success is reported without the backup asked for"); } if (!hit) vp_cover("no fault"); }
  else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
