// P27: the command that lists tags and audio.
#include "cmd.hh"
#include <scribbu/pprinter.hh>
#include <scribbu/csv-pprinter.hh>
#include <scribbu/json-pprinter.hh>
using namespace scribbu;
// what the listing of a file is made of: each part printed by itself (P11, P12 and the rest of P27 say what the parts look like)
enum { STD, CSV, JSON };
struct how { int fmt, indent, ncomm; bool v2, audio, v1, expand; };
static std::string parts(const bytes &data, const how &h) {
  std::istringstream is(data); std::vector<std::unique_ptr<id3v2_tag>> v; read_all_id3v2(is, std::back_inserter(v)); track_data d((std::istream &)is); std::unique_ptr<id3v1_tag> p = process_id3v1(is); std::string r; bool any = false;
  auto add = [&](auto &x) { std::ostringstream os; if (h.fmt == STD) os << pretty_print(h.indent, h.expand, encoding::CP1252); else if (h.fmt == CSV) os << print_as_csv(h.ncomm, encoding::CP1252); else os << print_as_json(encoding::CP1252); os << x; if (any && h.fmt == CSV) r += ','; r += os.str(); any = true; };
  if (h.v2) for (auto &t : v) add(*t); if (h.audio) add(d); if (h.v1 && p) add(*p); return r;
}
static std::string title(const std::string &name, const how &h) { return h.fmt == JSON ? "" : "\"" + name + "\":\n"; }
// the output without the times the files were changed
static std::string timeless(const std::string &s) { std::string r; std::size_t i = 0, n = s.size(); static const std::string mark = "Last Modified: "; while (i < n) { if (s.compare(i, mark.size(), mark) == 0 && (i == 0 || s[i - 1] == '\n')) { while (i < n && s[i] != '\n') ++i; ++i; } else r += s[i++]; } return r; }
static bytes shown(int n, const char *nm) { bytes b = any_text(n, nm); for (u8 c : b) vp_assume((c > 32) & (c < 127)); return b; }
static args_t options(const how &h, int spell) {
  static const char *names[][3] = {{"standard", "std", "2"}, {"csv", "csv", "1"}, {"json", "json", "3"}}; args_t a; if (h.fmt != STD || spell) { a.push_back("-f"); a.push_back(names[h.fmt][spell]); } if (h.indent) { a.push_back("-i"); a.push_back(std::string(1, '0' + h.indent)); } if (h.ncomm != 6) { a.push_back("-m"); a.push_back(std::string(1, '0' + h.ncomm)); } if (!h.expand) a.push_back("-g");
  if (!(h.v2 && h.audio && h.v1 && spell == 0)) { if (h.v2) a.push_back("-2"); if (h.audio) a.push_back("-D"); if (h.v1) a.push_back("-1"); } return a;
}
extern "C" {
void h_dump() {
  vpfs::reset(); how h; h.fmt = vp_choice(0, 2, "format"); int what = vp_choice(1, 7, "what"), spell = vp_choice(0, 2, "spelling"); h.v2 = what & 1; h.audio = what & 2; h.v1 = what & 4; h.indent = h.fmt == STD && spell ? 3 : 0; h.ncomm = h.fmt == CSV && spell ? spell - 1 : 6; h.expand = h.fmt != STD || spell < 2;
  mp3 f; int tags = vp_choice(0, 5, "tags"), v1 = vp_choice(0, 2, "v1"); bytes t = shown(1, "text"); auto one = [&](int ver) { return mk_tag(ver, {plain_text(ver, "TT2", "TIT2", t), mk("COM", "COMM", ver, nul() + "eng" + "d" + nul() + "c"), mk("CNT", "PCNT", ver, bytes("\0\0\0\x1f", 4))}, 3); };
  if (tags > 0 && tags < 4) f.tags = {one(tags + 1)}; else if (tags == 4) f.tags = {one(3), one(2)}; else if (tags == 5) f.tags = {one(4), one(3)};
  f.audio = "ab";                                     // h_listtrack has other audio
  if (v1) f.v1 = (v1 == 2 ? "TAG+" + bytes(180, 0) + "\2" + "gen" + bytes(27, 0) + "000:10" + "009:59" : bytes()) + mk_v1(17, t);
  vpfs::put("/w/a.mp3", f.all()); snapshot was; std::string out; int rc; { capture c; rc = run("dump", options(h, spell) + args_t{"a.mp3"}); out = c.text(); } vp_assert(rc == 0, "the command fails"); std::string want = title("a.mp3", h) + parts(f.all(), h) + "\n"; vp_assert(same(timeless(out), want), "what is listed"); was.untouched(); vp_cover("listed");
}
void h_dump_files() {
  vpfs::reset(); static const char *at[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.ogg"}; int bad = vp_choice(0, 3, "bad"); how h = {(int)vp_choice(0, 2, "format"), 0, 6, true, true, true, true}; mp3 f[3];
  for (int i = 0; i < 3; ++i) { f[i].tags = {mk_tag(i + 2, {plain_text(i + 2, "TT2", "TIT2", shown(1, "title"))}, 3)}; f[i].audio = some_audio(1); if (i == 1) f[i].v1 = mk_v1(17); if (bad == i + 1) f[i].tags[0].raw[6] = (char)0x7f; vpfs::put(at[i], f[i].all()); } snapshot was;
  struct item { int i; const char *name; }; static const struct { args_t a; std::vector<item> e; } cases[] = {{{"a.mp3", "sub/c.ogg"}, {{0, "a.mp3"}, {2, "sub/c.ogg"}}}, {{"/w/sub/b.mp3", "a.mp3", "a.mp3"}, {{1, "/w/sub/b.mp3"}, {0, "a.mp3"}, {0, "a.mp3"}}}, {{"sub"}, {{1, "sub/b.mp3"}, {2, "sub/c.ogg"}}}, {{"-e", ".*\\.mp3", "sub", "a.mp3"}, {{1, "sub/b.mp3"}, {0, "a.mp3"}}}, {{"/w"}, {{0, "/w/a.mp3"}, {1, "/w/sub/b.mp3"}, {2, "/w/sub/c.ogg"}}}};
  int k = vp_choice(0, 4, "arguments"); auto &c = cases[k]; std::string out; { capture cap; run("dump", options(h, 0) + c.a); out = timeless(cap.text()); } bool any = false; std::string want; std::vector<std::string> each;
  for (auto &x : c.e) { if (bad == x.i + 1) { any = true; continue; } each.push_back(title(x.name, h) + parts(f[x.i].all(), h) + "\n"); want += each.back(); }
  if (k < 2 || each.size() < 2) vp_assert(same(out, want), "what is listed"); else { vp_assert(out.size() == want.size(), "what is listed"); for (auto &e : each) { bool found = false; for (std::size_t i = 0; i + e.size() <= out.size(); ++i) found |= same(out.substr(i, e.size()), e); vp_assert(found, "a file is not listed"); } }       // the order within a directory is open
  was.untouched(); if (any) vp_cover("unreadable file"); else vp_cover("several files");
}
void h_dump_usage() {
  vpfs::reset(); mp3 f; f.audio = some_audio(1); vpfs::put("/w/a.mp3", f.all()); snapshot was; static const args_t cases[] = {{}, {"-f", "xml", "a.mp3"}, {"none.mp3"}, {"a.mp3", "none.mp3"}, {"-f"}, {"-c", "no such", "a.mp3"}, {"-m", "x", "a.mp3"}, {"--bad", "a.mp3"}}; int k = vp_choice(0, 7, "usage"); capture cap; vp_assert(run("dump", cases[k]) != 0, "no failure is reported"); was.untouched(); vp_cover("refused");
}
}
