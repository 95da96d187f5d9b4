// Running scribbu's sub-commands on files in the in-memory file system.
#ifndef VP_CMD_HH
#define VP_CMD_HH
#include <map>
#include <functional>
#include <command-utilities.hh>
#include "edit.hh"
#include <vpfs.hh>
#include <initializer_list>
#include <iostream>
#include <sstream>
typedef std::vector<std::string> args_t;
static int run(const char *name, const args_t &args) {
  std::vector<std::string> own(args); std::vector<char *> v; for (auto &a : own) v.push_back(&a[0]); v.push_back(0);
  return get_sub_command(name)((int)own.size(), v.data());
}
static args_t operator+(args_t a, const args_t &b) { for (auto &x : b) a.push_back(x); return a; }
static bool same(const bytes &a, const bytes &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
// ---- files -----------------------------------------------------------------------------
struct mp3 { std::vector<sample> tags; bytes audio, v1; bytes all() const {
    bytes r; for (auto &t : tags) r += t.raw; r += audio + v1;
    // nothing in an ID3v2 tag looks like an ID3v1 tag, as it might in so small a file
    std::size_t n = r.size(); if (v1.empty() && n >= 128) vp_assume(r.substr(n - 128, 3) != "TAG"); return r;
  } };
static sample mk_tag(int ver, const std::vector<frame> &fs, int pad = 0, u8 flags = 0) { sample s; s.ver = ver; s.frames = fs; s.pad = pad; s.flags = flags; encode(s); return s; }
static frame plain_text(int ver, const char *id2, const char *id4, const bytes &t) { return mk(id2, id4, ver, nul() + t); }
// an ID3v1 tag: what matters is arbitrary, the rest is fixed
static bytes mk_v1(u8 genre, const bytes &title = "ti", const bytes &artist = "ar", const bytes &album = "al", const bytes &year = "1999", const bytes &comment = "co") {
  auto f = [](bytes s, std::size_t n) { s.resize(n, 0); return s; };
  return bytes("TAG") + f(title, 30) + f(artist, 30) + f(album, 30) + f(year, 4) + f(comment, 30) + bytes(1, (char)genre);
}
static bytes some_audio(int n) { bytes a = any_text(n, "audio"); if (n) vp_assume(a[0] != 'I' && a[0] != 'T'); return a; }
// ---- what a file holds after the command ------------------------------------------------
struct found { std::vector<content> tags; bytes rest; };
static found look(const std::string &name) {
  vpfs::node *p = vpfs::find(name); vp_assert(p && !p->dir, "the file is gone"); found r; r.rest = p->data;
  while (r.rest.size() >= 10 && r.rest[0] == 'I' && r.rest[1] == 'D' && r.rest[2] == '3') { r.tags.push_back(decode(r.rest)); r.rest = r.rest.substr(r.tags.back().end); }
  return r;
}
// the text of a text frame: one byte per character, or sixteen bits with a byte order mark; unused space after it left out
static bytes text_of(const bytes &b) {
  vp_assert(b.size() >= 1, "a text frame has an encoding"); int e = vp_conc((u8)b[0]); bytes r;
  if (e == 0 || e == 3) r = b.substr(1);
  else { vp_assert(e == 1 && b.size() >= 3 && b.size() % 2 == 1, "sixteen-bit text"); bool le = (u8)b[1] == 0xff; for (std::size_t i = 3; i + 1 < b.size(); i += 2) { vp_assert(b[le ? i + 1 : i] == 0, "one-byte character"); r += b[le ? i : i + 1]; } }
  while (r.size() && r.back() == 0) r.pop_back(); return r;
}
static std::vector<const frame *> all_of(const content &c, const char *id2, const char *id4) { std::vector<const frame *> r; bytes id(c.ver == 2 ? id2 : id4); for (auto &f : c.frames) if (same(f.id, id)) r.push_back(&f); return r; }
static bool is(const frame &f, const char *id2, const char *id4) { return same(f.id, f.id.size() == 3 ? id2 : id4); }
// the frames of the tag other than those named are what they were, in the order they were in
template <class P> static void others_same(const content &c, const sample &s, P skip) {
  std::size_t i = 0; for (auto &f : c.frames) { if (skip(f)) continue; while (i < s.frames.size() && skip(s.frames[i])) ++i; vp_assert(i < s.frames.size(), "a frame was added that was not asked for"); vp_assert(same(f.id, s.frames[i].id) & same(f.body, s.frames[i].body), "a frame was changed that should not be"); ++i; }
  while (i < s.frames.size() && skip(s.frames[i])) ++i; vp_assert(i == s.frames.size(), "a frame is lost");
}
static void tag_same(const content &c, const sample &s) { vp_assert(c.ver == s.ver, "the version of a tag was changed"); others_same(c, s, [](const frame &) { return false; }); }
// a file whose tags, audio and ID3v1 tag hold what they held, but for the tags the command was to change
static void audio_same(const found &r, const mp3 &f) { vp_assert(r.rest.size() >= f.audio.size() && same(r.rest.substr(0, f.audio.size()), f.audio), "the audio was changed"); }
static bytes after_audio(const found &r, const mp3 &f) { audio_same(r, f); return r.rest.substr(f.audio.size()); }
// an ID3v1 tag's fields
static bytes v1_field(const bytes &v1, int at, int n) { bytes r = v1.substr(v1.size() - 128 + at, n); while (r.size() && r.back() == 0) r.pop_back(); return r; }
static bytes v1_title(const bytes &b) { return v1_field(b, 3, 30); } static bytes v1_artist(const bytes &b) { return v1_field(b, 33, 30); } static bytes v1_album(const bytes &b) { return v1_field(b, 63, 30); } static bytes v1_year(const bytes &b) { return v1_field(b, 93, 4); } static bytes v1_comment(const bytes &b) { return v1_field(b, 97, 30); }
// the only frame of a kind holds this text; or there is no frame of the kind
static void has_text(const content &c, const char *id2, const char *id4, const bytes &t) { auto v = all_of(c, id2, id4); vp_assert(v.size() == 1, "not exactly one frame of the kind"); vp_assert(same(text_of(v[0]->body), t), "the text is not the one expected"); }
static void has_none(const content &c, const char *id2, const char *id4) { vp_assert(all_of(c, id2, id4).empty(), "a frame is there that should not be"); }
// a tag made from an ID3v1 tag carries over what that says
static void carried_over(const content &c, const bytes &v1) {
  vp_assert(c.ver == 3, "a new tag is ID3v2.3"); has_text(c, "TT2", "TIT2", v1_title(v1)); has_text(c, "TP1", "TPE1", v1_artist(v1)); has_text(c, "TAL", "TALB", v1_album(v1));
  auto y = all_of(c, "TYE", "TYER"); vp_assert(y.size() == 1 && same(text_of(y[0]->body), v1_year(v1)), "the year was not carried over"); auto m = all_of(c, "COM", "COMM"); vp_assert(m.size() == 1, "the comment was not carried over");
}
// what is printed on standard output while the object lives
struct capture { std::ostringstream os; std::streambuf *old; capture(): old(std::cout.rdbuf(os.rdbuf())) {} ~capture() { std::cout.rdbuf(old); } std::string text() const { return os.str(); } };
// a number in decimal, each digit arbitrary
static std::string digits(int n, unsigned &val) { std::string s = any_text(n, "digits"); val = 0; for (char &c : s) { vp_assume(c >= '0' && c <= '9'); val = val * 10 + (c - '0'); } return s; }
// all the tags (of a file with n), said in either way
static args_t all_tags(int n = 1) { return n <= 1 && vp_flag("by index") ? args_t{"-t", "0"} : args_t{}; }
// ---- which tags: the common options -----------------------------------------------------
struct scope { args_t args; int which; bool v1; bool in(std::size_t i) const { return which == -1 || (which & 1 << i); } };
// by index only (none given: all)
static scope by_index() {
  static const scope v[] = {{{}, -1, true}, {{"-t", "0"}, 1, true}, {{"-t", "1"}, 2, true}, {{"-t", "0", "-t", "1"}, 3, true}, {{"-t", "1", "-t", "0"}, 3, true}, {{"-t", "2"}, 4, true}};
  return v[vp_choice(0, 5, "scope")];
}
// ---- the directory ---------------------------------------------------------------------
struct ent { std::string name; bytes data; };
struct snapshot {
  std::vector<ent> v;
  snapshot() { for (std::size_t i = 0; i < vpfs::count(); ++i) if (!vpfs::at(i)->dir) v.push_back(ent{vpfs::at(i)->name, vpfs::at(i)->data}); }
  bool had(const std::string &n) const { for (auto &e : v) if (e.name == n) return true; return false; }
  void kept(const std::vector<std::string> &but = {}) const { for (auto &e : v) { bool b = false; for (auto &x : but) b |= x == e.name; if (b) continue; vpfs::node *p = vpfs::find(e.name); vp_assert(p, "a file is gone"); vp_assert(same(p->data, e.data), "a file was changed that should not be"); } }
  std::vector<std::string> added() const { std::vector<std::string> r; for (std::size_t i = 0; i < vpfs::count(); ++i) if (!vpfs::at(i)->dir && !had(vpfs::at(i)->name)) r.push_back(vpfs::at(i)->name); return r; }
  // the only file added is a copy of what this one held
  void backed_up(const std::string &n) const { auto a = added(); vp_assert(a.size() == 1, "not exactly one backup"); for (auto &e : v) if (e.name == n) { vp_assert(same(vpfs::find(a[0])->data, e.data), "the backup is not a copy of the file"); vp_assert(a[0].substr(0, n.size()) == n, "the backup is not named after the file"); } }
  void untouched() const { kept(); vp_assert(added().empty(), "a file was added"); }
};
#endif
