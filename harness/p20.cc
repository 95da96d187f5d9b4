// P20: the text command.
#include "cmd.hh"
static const std::string F("/w/a.mp3");
// the fields: options, names for deletion, frame identifiers, where ID3v1 has it
struct field { const char *lopt, *sopt, *name[3], *id2, *id4; int v1at; };
static const field fields[] = {
  {"--album", "-a", {"album", "TALB", "talb"}, "TAL", "TALB", 63}, {"--artist", "-A", {"artist", "TPE1", "tpe1"}, "TP1", "TPE1", 33}, {"--title", "-T", {"title", "TIT2", "tit2"}, "TT2", "TIT2", 3},
  {"--encoded-by", "-e", {"encoded-by", "TENC", "tenc"}, "TEN", "TENC", 0}, {"--genre", "-g", {"genre", "TCON", "tcon"}, "TCO", "TCON", 0}, {"--track", "-k", {"track", "TRCK", "trck"}, "TRK", "TRCK", 0}, {"--year", "-y", {"year", "TYER", "tyer"}, "TYE", "TYER", 0}};
static bool is_field(const frame &f, const field &d) { return is(f, d.id2, d.id4); }
// k: 0 without the frame, 1 before, 2 after another
static sample some_tag(int ver, int k, const field &d) {
  frame o = other_frame(ver, 1), t = plain_text(ver, d.id2, d.id4, "Old"); std::vector<frame> v;
  if (k == 0) v = {o}; else if (k == 1) v = {t, o}; else v = {o, t};
  return mk_tag(ver, v, 30);
}
static void is_set(const content &c, const sample &s, const field &d, const bytes &t) { vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, [&](const frame &f) { return is_field(f, d); }); has_text(c, d.id2, d.id4, t); }
static void is_gone(const content &c, const sample &s, const field &d) { vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, [&](const frame &f) { return is_field(f, d); }); has_none(c, d.id2, d.id4); }
// the ID3v1 tag, where it has the field, holds the text; nothing else in it changes
static void v1_set(const bytes &now, const bytes &old, const field &d, const bytes &t) {
  vp_assert(now.size() == 128 && old.size() == 128, "the size of the ID3v1 tag changed"); if (!d.v1at) { vp_assert(same(now, old), "the ID3v1 tag was changed"); return; }
  vp_assert(same(now.substr(0, d.v1at), old.substr(0, d.v1at)) & same(now.substr(d.v1at + 30), old.substr(d.v1at + 30)), "the ID3v1 tag was changed beyond the field"); bytes w(t); w.resize(30, 0); vp_assert(same(now.substr(d.v1at, 30), w), "the ID3v1 field is not the one asked for"); vp_cover("ID3v1 field set");
}
static std::string value(int n) { std::string s = word(n, "value"); vp_assume(s[0] != '-'); return s; }
extern "C" {
// which tags
void h_text_scope() {
  vpfs::reset(); mp3 f; const field &d = fields[1]; int n = vp_choice(0, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 2, "kind"), d));
  bool v1 = vp_flag("v1"); f.audio = some_audio(2); if (v1) f.v1 = mk_v1(9); vpfs::put(F, f.all()); vpfs::put("/w/b.mp3", "other"); snapshot was; scope sc = by_index(); std::string t = value(2);
  vp_assert(run("text", args_t{"-A", t} + sc.args + args_t{F}) == 0, "the command fails"); was.kept({F}); vp_assert(was.added().empty(), "files are left behind"); found r = look(F);
  vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed");
  for (std::size_t i = 0; i < r.tags.size(); ++i) if (sc.in(i)) { is_set(r.tags[i], f.tags[i], d, t); vp_cover("text set"); } else { tag_same(r.tags[i], f.tags[i]); vp_cover("tag out of scope"); }
  bytes z = after_audio(r, f); if (v1) v1_set(z, f.v1, d, t); else vp_assert(z.empty(), "something was added after the audio");
}
// which frame
void h_text_field() {
  vpfs::reset(); mp3 f; const field &d = fields[vp_choice(0, 6, "field")]; f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 2, "kind"), d)); f.audio = some_audio(2); bool v1 = vp_flag("v1"); if (v1) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was;
  int form = vp_choice(0, 3, "form"); std::string t = form == 1 ? word(2, "value") : value(2); args_t a = form == 0 ? args_t{d.lopt, t} : form == 1 ? args_t{std::string(d.lopt) + "=" + t} : form == 2 ? args_t{d.sopt, t} : args_t{d.sopt + t};
  vp_assert(run("text", a + args_t{F}) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_set(r.tags[0], f.tags[0], d, t);
  bytes z = after_audio(r, f); if (v1) v1_set(z, f.v1, d, t); else vp_assert(z.empty(), "something was added after the audio"); vp_cover("frame set");
}
// deletion, under any of the frame's names
void h_text_delete() {
  vpfs::reset(); mp3 f; int i = vp_choice(0, 6, "field"); const field &d = fields[i]; f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 2, "kind"), d)); f.audio = some_audio(2); bool v1 = vp_flag("v1"); if (v1) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was;
  std::string nm(d.name[vp_choice(0, 2, "name")]); args_t a = vp_flag("long") ? args_t{"--delete=" + nm} : args_t{"-d", nm};
  vp_assert(run("text", a + args_t{F}) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_gone(r.tags[0], f.tags[0], d);
  bytes z = after_audio(r, f); if (v1) v1_set(z, f.v1, d, ""); else vp_assert(z.empty(), "something was added after the audio"); vp_cover("frame deleted");
}
// several at once
void h_text_several() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); const field &al = fields[0], &ar = fields[1], &ti = fields[2];
  f.tags.push_back(mk_tag(ver, {plain_text(ver, "TAL", "TALB", "Old"), other_frame(ver, 1), plain_text(ver, "TP1", "TPE1", "Old")}, 30)); f.audio = some_audio(2); f.v1 = mk_v1(9); vpfs::put(F, f.all()); int k = vp_choice(0, 3, "request"); std::string t = value(2), u = value(1);
  static const auto skip = [](const frame &x) { return is_field(x, fields[0]) || is_field(x, fields[1]) || is_field(x, fields[2]); };
  args_t a = k == 0 ? args_t{"-A", t, "-T", u, "-d", "album"} : k == 1 ? args_t{"-d", "TALB", "-d", "TPE1", "-T", t} : k == 2 ? args_t{"-d", "artist", "-A", t} : args_t{"-a", t, "-A", u, "-T", t};
  vp_assert(run("text", a + args_t{F}) == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1 && r.tags[0].ver == ver, "the tag is another"); const content &c = r.tags[0]; others_same(c, f.tags[0], skip); bytes z = after_audio(r, f); vp_assert(z.size() == 128, "the ID3v1 tag");
  auto chk = [&](const field &d, bool there, const bytes &x) { if (there) has_text(c, d.id2, d.id4, x); else has_none(c, d.id2, d.id4); };
  if (k == 0) { chk(ar, true, t); chk(ti, true, u); chk(al, false, ""); vp_assert(same(v1_artist(z), t) & same(v1_title(z), u) & v1_album(z).empty(), "the ID3v1 tag"); } else if (k == 1) { chk(al, false, ""); chk(ar, false, ""); chk(ti, true, t); vp_assert(same(v1_title(z), t) & v1_artist(z).empty() & v1_album(z).empty(), "the ID3v1 tag"); } else if (k == 2) { chk(ar, true, t); chk(al, true, "Old"); chk(ti, false, ""); vp_assert(same(v1_artist(z), t) & same(v1_album(z), "al") & same(v1_title(z), "ti"), "the ID3v1 tag"); } else { chk(al, true, t); chk(ar, true, u); chk(ti, true, t); vp_assert(same(v1_artist(z), u) & same(v1_title(z), t) & same(v1_album(z), t), "the ID3v1 tag"); }
  vp_cover("several frames");
}
// characters beyond ASCII, given in an encoding the caller names
void h_text_encoding() {
  vpfs::reset(); mp3 f; int ver = vp_choice(2, 4, "version"); const field &d = fields[2]; f.tags.push_back(some_tag(ver, vp_choice(0, 1, "kind"), d)); f.audio = some_audio(1); vpfs::put(F, f.all());
  int e = vp_choice(0, 1, "encoding"); unsigned cp = vp_any<unsigned short>("character"); std::string t; if (e == 0) { vp_assume(cp >= 0xa0 && cp <= 0xff); t = std::string(1, (char)cp); } else { vp_assume(cp >= 0xa0 && cp <= 0x7ff); t += (char)(0xc0 | cp >> 6); t += (char)(0x80 | (cp & 63)); }
  int rc = run("text", {"-T", t, "-E", e ? "UTF-8" : "ISO-8859-1", F}); vp_assert(rc == 0, "the command fails"); found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); others_same(r.tags[0], f.tags[0], [&](const frame &x) { return is_field(x, d); }); auto v = all_of(r.tags[0], d.id2, d.id4); vp_assert(v.size() == 1, "not exactly one frame of the kind");
  const bytes &b = v[0]->body; vp_assert(b.size() >= 2, "text"); int k = vp_conc((u8)b[0]); unsigned got = 0;
  if (k == 0) { vp_assert(b.size() == 2, "one character"); got = (u8)b[1]; vp_cover("one byte"); } else if (k == 1) { vp_assert(b.size() == 5, "one character"); bool le = (u8)b[1] == 0xff; got = le ? (u8)b[3] | (u8)b[4] << 8 : (u8)b[4] | (u8)b[3] << 8; vp_cover("sixteen bits"); } else { vp_assert(k == 3 && ver == 4 && b.size() == 3, "one character"); got = ((u8)b[1] & 31) << 6 | ((u8)b[2] & 63); vp_cover("UTF-8"); }
  vp_assert(got == cp, "the character is another");
}
// tags that are not there
void h_text_create() {
  vpfs::reset(); mp3 f; bool v1 = vp_flag("v1"), v2 = vp_flag("v2"); const field &d = fields[2]; f.audio = some_audio(2); if (v2) f.tags.push_back(some_tag(3, 0, d)); bytes ar = word(2, "artist"); if (v1) f.v1 = mk_v1(9, "ti", ar); vpfs::put(F, f.all()); snapshot was;
  int o = vp_choice(0, 2, "create"); static const args_t opts[] = {{}, {"-c"}, {"-C"}}; std::string t = value(2);
  vp_assert(run("text", args_t{"-T", t} + opts[o] + args_t{F}) == 0, "the command fails"); vp_assert(was.added().empty(), "files are left behind"); found r = look(F); bytes z = after_audio(r, f); bool made = !v2 && (o == 2 || (o == 1 && v1));
  vp_assert(r.tags.size() == (v2 || made ? 1u : 0u), "an ID3v2 tag is made only when asked for"); if (v2) is_set(r.tags[0], f.tags[0], d, t);
  if (made) { has_text(r.tags[0], "TT2", "TIT2", t); vp_assert(r.tags[0].ver == 3, "a new tag is ID3v2.3"); if (v1) { has_text(r.tags[0], "TP1", "TPE1", ar); has_text(r.tags[0], "TAL", "TALB", "al"); has_text(r.tags[0], "TYE", "TYER", "1999"); vp_cover("made from the ID3v1 tag"); } else { vp_assert(r.tags[0].frames.size() == 1, "a new tag holds what was asked for only"); vp_cover("made"); } }
  if (v1) v1_set(z, f.v1, d, t); else vp_assert(z.empty(), "something was added after the audio");
}
void h_text_how() {
  vpfs::reset(); mp3 f; const field &d = fields[2]; int n = vp_choice(1, 2, "tags"); for (int i = 0; i < n; ++i) f.tags.push_back(some_tag(vp_choice(2, 4, "version"), vp_choice(0, 1, "kind"), d)); f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was;
  bool keep = vp_flag("backup"), uns = vp_flag("unsync"), vb = vp_flag("verbose"); args_t a{"-T", "New"}; if (keep) a.push_back("-b"); if (uns) a.push_back("-u"); if (vb) a.push_back("-v"); vp_assert(run("text", a + args_t{keep && vp_flag("directory") ? "/w" : F}) == 0, "the command fails");
  if (keep) { was.backed_up(F); vp_cover("backup kept"); } else vp_assert(was.added().empty(), "files are left behind"); found r = look(F); vp_assert(r.tags.size() == f.tags.size(), "the number of tags changed"); for (int i = 0; i < n; ++i) is_set(r.tags[i], f.tags[i], d, "New"); bytes z = after_audio(r, f); if (f.v1.size()) v1_set(z, f.v1, d, "New"); else vp_assert(z.empty(), "something was added after the audio");
}
void h_text_usage() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(3, 1, fields[2])); f.audio = some_audio(1); vpfs::put(F, f.all()); snapshot was;
  static const args_t bad[] = {{"-T", "x"}, {"-T", "x", "-c", "-C", F}, {"-d", "nosuch", F}, {"-T", "x", "-E", "nosuch", F}, {"-T", "x", "-t", "y", F}, {"-T", "x", "--nosuch", F}, {F, "-T"}, {"-T", "x", "-T", "y", F}};
  vp_assert(run("text", bad[vp_choice(0, 7, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
void h_text_fault() {
  vpfs::reset(); mp3 f; f.tags.push_back(some_tag(3, 1, fields[2])); f.audio = some_audio(2); if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; bool keep = vp_flag("backup"); args_t a{"-T", vp_flag("long") ? std::string(60, 'n') : std::string("New")}; std::string want = a[1]; if (keep) a.push_back("-b");
  vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("text", a + args_t{F}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0;
  if (rc == 0) { found r = look(F); vp_assert(r.tags.size() == 1, "the number of tags changed"); is_set(r.tags[0], f.tags[0], fields[2], want); bytes z = after_audio(r, f); if (f.v1.size()) v1_set(z, f.v1, fields[2], want.substr(0, 30)); else vp_assert(z.empty(), "something was added after the audio"); if (keep) { bool ok = false; for (auto &x : was.added()) ok |= same(vpfs::find(x)->data, was.v[0].data); vp_assert(ok, "success is reported without the backup asked for"); } if (!hit) vp_cover("no fault"); }
  else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
