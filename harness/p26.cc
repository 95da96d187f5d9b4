// P26: reports.
#include "cmd.hh"
extern "C" { extern unsigned char vp_md_log[4096]; extern size_t vp_md_len; }
typedef std::vector<std::string> row;
// ---- reading a report back: separated by commas with quotes, or by a separator that the values do not contain
static std::vector<row> rows(const std::string &s, char sep) {
  std::vector<row> all; row r; std::string f; bool quoted = false, inside = false; std::size_t n = s.size();
  for (std::size_t i = 0; i < n; ++i) {
    char c = s[i];
    if (inside) { if (c != '"') f += c; else if (i + 1 < n && s[i + 1] == '"') { f += c; ++i; } else inside = false; }
    else if (c == sep) { r.push_back(f); f.clear(); quoted = false; }
    else if (c == '\n') { r.push_back(f); f.clear(); quoted = false; all.push_back(r); r.clear(); }
    else if (sep == ',' && c == '"' && f.empty() && !quoted) quoted = inside = true;
    else { vp_assert(!quoted && (sep != ',' || c != '"'), "a quote is out of place"); f += c; }
  }
  vp_assert(!inside && r.empty() && f.empty(), "the report ends within a row"); return all;
}
struct report { row head; std::vector<row> v;
  const std::string &at(std::size_t i, const char *col) const { for (std::size_t k = 0; k < head.size(); ++k) if (head[k] == col) return v[i][k]; vp_assert(false, "a column is missing"); return v[i][0]; } };
static report read(const std::string &name, char sep) {
  vpfs::node *p = vpfs::find(name); vp_assert(p && !p->dir, "there is no report"); report r; r.v = rows(p->data, sep); vp_assert(r.v.size() >= 1, "there is no header"); r.head = r.v[0]; r.v.erase(r.v.begin());
  for (auto &x : r.v) vp_assert(x.size() == r.head.size(), "a row has not as many columns as the header"); return r;
}
static bytes plain(int n, const char *nm, char sep) {            // P11 has the rest
  bytes b = any_text(n, nm); bool q = false, e = false; for (u8 c : b) { vp_assume((c > 32) & (c < 127) | (c == '\n') & (sep == ',')); if (sep != ',') vp_assume(c != (u8)sep); q |= c == '"'; e |= (c == ',') | (c == '\n'); } if (sep == ',') vp_assume(!q | e); return b;
}
static std::string path_cell(const std::string &s, char sep) { return sep == ',' ? s : "\"" + s + "\""; }
static std::string hex(std::size_t n) { static const char d[] = "0123456789abcdef"; std::string r; for (int i = 0; i < 16; ++i) { u8 c = u8(n + i); r += d[c >> 4]; r += d[c & 15]; } return r; }
struct form { args_t args; char sep; };
static form any_form() { static const form f[] = {{{}, ','}, {{"-t"}, '\t'}, {{"-t", "-a"}, 0x1f}}; return f[vp_choice(0, 2, "format")]; }
static frame comment(int ver, const bytes &d, const bytes &t) { return mk("COM", "COMM", ver, nul() + "eng" + d + nul() + t); }
// what a row says
static void one_row(bool first) {
  vpfs::reset(); form fm = any_form(); mp3 f; int ver = vp_choice(1, 4, "version"), nc = vp_choice(0, 2, "comments"), have = vp_choice(0, 3, "frames"), v1 = vp_choice(0, 2, "v1"), na = vp_choice(0, 2, "audio"); bytes t = plain(1, "text", fm.sep), u = plain(2, "text", fm.sep); bool dir = vp_flag("directory");
  if (ver == 1) vp_assume(have == 0); if (first) vp_assume(v1 == (nc > 1) && na == nc && dir == !nc); else vp_assume(ver < 3 && !have && nc == na % 2);
  static const struct { const char *id2, *id4, *col; } cols[] = {{"TP1", "TPE1", "ID3v2 Artist"}, {"TT2", "TIT2", "ID3v2 Title"}, {"TAL", "TALB", "ID3v2 Album"}, {"TEN", "TENC", "ID3v2 Encoded By"}, {"TCO", "TCON", "ID3v2 Content Type"}}; bytes want[5]; std::vector<bytes> com; std::vector<frame> fs;
  if (ver > 1) { int i = vp_choice(0, 4, "which"), j = (i + 2) % 5; if (have == 1) { fs.push_back(plain_text(ver, cols[i].id2, cols[i].id4, u)); want[i] = u; } else if (have == 2) { fs.push_back(plain_text(ver, cols[i].id2, cols[i].id4, t)); fs.push_back(plain_text(ver, cols[j].id2, cols[j].id4, u)); want[i] = t; want[j] = u; } else { vp_assume(i == 0); if (have == 3) { fs.push_back(comment(ver, "d", t)); fs.push_back(comment(ver, "e", "")); fs.push_back(comment(ver, "f", u)); com = {t, "", u}; } else fs.push_back(plain_text(ver, "TOA", "TOPE", "x")); } f.tags = {mk_tag(ver, fs, 3)}; }
  f.audio = some_audio(na); bytes a1 = plain(1, "v1", fm.sep), t1 = plain(1, "v1", fm.sep); if (v1 == 1) f.v1 = mk_v1(17, t1, a1, "al", "1999", "co"); else if (v1 == 2) f.v1 = mk_v1(9, "", "", a1, "", t1);
  vpfs::put("/w/sub/a b.mp3", f.all()); snapshot was; args_t g = fm.args + args_t{"-o", "/w/out", "-c", std::string(1, '0' + nc)}; if (!dir) g.push_back("-d"); vp_md_len = 0; vp_assert(run("report", g + args_t{dir == (have == 1) ? "sub/a b.mp3" : "/w/sub/a b.mp3"}) == 0, "the command fails");
  report r = read("/w/out", fm.sep); vp_assert(r.v.size() == 1, "not one row for each file"); if (dir) vp_assert(r.at(0, "directory") == path_cell("/w/sub", fm.sep), "the directory"); vp_assert(r.at(0, "file") == path_cell("a b.mp3", fm.sep), "the name of the file"); vp_assert(r.at(0, "file size(MB)") == "0.000", "the size of the file");
  vp_assert(r.at(0, "ID3v2 version") == (ver > 1 ? std::to_string(ver) : ""), "the version"); for (int i = 0; i < 5; ++i) if (!(ver == 1 && i == 5)) vp_assert(r.at(0, cols[i].col) == want[i], "a text of the ID3v2 tag"); vp_assert(r.at(0, "# ID3v2 comment frames") == (ver > 1 ? std::to_string(com.size()) : ""), "the number of comments"); vp_assert(r.at(0, "# ID3v2 play count frames") == (ver > 1 ? "0" : ""), "the number of play counts");
  static const char *cc[] = {"comment #0 text", "comment #1 text"}; for (int i = 0; i < nc; ++i) vp_assert(r.at(0, cc[i]) == (i < (int)com.size() ? com[i] : ""), "a comment");
  vp_assert(r.at(0, "size (bytes)") == std::to_string(na), "the size of the audio"); vp_assert(r.at(0, "MD5") == hex(na), "the digest"); vp_assert(vp_md_len == (size_t)na, "what is digested"); for (int i = 0; i < na; ++i) vp_assert(vp_md_log[i] == (u8)f.audio[i], "what is digested");
  vp_assert(r.at(0, "has ID3v1.1") == (v1 ? "0" : ""), "whether ID3v1.1"); vp_assert(r.at(0, "has ID3v1 extended") == (v1 ? "0" : ""), "whether extended"); const std::string e; auto is = [&](const char *c, const std::string &x) { vp_assert(r.at(0, c) == x, "a text of the ID3v1 tag"); }; is("ID3v1 Artist", v1 == 1 ? a1 : e); is("ID3v1 Title", v1 == 1 ? t1 : e); is("ID3v1 Album", v1 == 1 ? bytes("al") : v1 == 2 ? a1 : e); is("ID3v1 Year", v1 == 1 ? "1999" : e); is("ID3v1 Comment", v1 == 1 ? bytes("co") : v1 == 2 ? t1 : e); vp_assert(r.v[0].back() == (v1 == 1 ? "17" : v1 ? "9" : ""), "the genre");
  was.kept(); vp_assert(was.added().size() == 1, "a file was added"); if (ver == 1) vp_cover("no ID3v2 tag"); else vp_cover("ID3v2 tag"); if (v1) vp_cover("ID3v1 tag"); if (!nc) vp_cover("no comments wanted"); if (fm.sep == ',') vp_cover("CSV"); else vp_cover("TSV");
}
extern "C" {
void h_report_row2() { one_row(true); }
void h_report_row1() { one_row(false); }
// names of files
void h_report_names() {
  vpfs::reset(); std::string n = "a"; n += (char)any_text(1, "name")[0]; n += any_text(vp_choice(0, 1, "n"), "name"); for (std::size_t i = 1; i < n.size(); ++i) vp_assume((n[i] != '/') & (n[i] != 0)); mp3 f; f.audio = some_audio(1); bool sub = vp_flag("directory"); if (sub) vpfs::put("/w/sub/" + n + ".mp3", f.all()); else vpfs::put("/w/" + n + ".mp3", f.all());
  int k = vp_choice(0, 1, "argument"); vp_assert(run("report", args_t{"-o", "/tmp/out", k ? (sub ? "sub/" : "./") + n + ".mp3" : "/w"}) == 0, "the command fails"); report r = read("/tmp/out", ','); vp_assert(r.v.size() == 1, "not one row for each file"); vp_assert(same(r.at(0, "file"), n + ".mp3"), "the name of the file"); vp_cover("any name");
}
// each file once; a file that cannot be read is left out
void h_report_files() {
  vpfs::reset(); form fm = any_form(); static const char *at[] = {"/w/a.mp3", "/w/sub/b.mp3", "/w/sub/c.ogg"}, *names[] = {"a.mp3", "b.mp3", "c.ogg"}; std::string title[3]; int bad = vp_choice(0, 3, "bad"), kind = vp_choice(0, 3, "kind"); if (!bad) vp_assume(!kind);
  for (int i = 0; i < 3; ++i) { mp3 f; title[i] = plain(1, "title", fm.sep); f.tags = {mk_tag(i + 2, {plain_text(i + 2, "TT2", "TIT2", title[i])}, 3)}; f.audio = some_audio(2); if (bad == i + 1) { if (kind == 0) f.tags[0].raw[6] = (char)0x7f; else if (kind == 1) f.tags = {mk_tag(4, {plain_text(4, "", "TPE1", "a"), mk("", "TIT2", 4, bytes(1, 3) + "\xff")}, 3)}; else if (kind == 2) f.tags = {mk_tag(i + 2, {comment(i + 2, "d", "t"), mk("COM", "COMM", i + 2, bytes("\1eng\xff\xfe\0\0\xff\xfe\x00\xd8", 12))}, 3)}; else f.v1 = mk_v1(3, "t", "a", "\x81"); } vpfs::put(at[i], f.all()); } snapshot was;
  static const struct { args_t a; std::vector<int> e; } cases[] = {{{"/w"}, {0, 1}}, {{"sub"}, {1}}, {{"a.mp3", "sub/c.ogg", "sub/b.mp3"}, {0, 2, 1}}, {{"sub/b.mp3", "/w/a.mp3", "sub/b.mp3"}, {1, 0, 1}}, {{"/w/sub/", "a.mp3"}, {1, 0}}}; int k = vp_choice(0, 4, "arguments"); auto &c = cases[k]; capture cap; int rc = run("report", fm.args + args_t{"-o", "/tmp/my report"} + c.a);
  std::vector<int> e; bool hit = false; for (int i : c.e) if (bad != i + 1) e.push_back(i); else hit = true; report r = read("/tmp/my report", fm.sep);
  if (hit && rc == 0 && kind) { vp_assert(r.v.size() == c.e.size(), "success is reported though a row is missing"); return; }     // whether malformed text is an error is not at issue here
  vp_assert((rc != 0) == hit, "the status"); vp_assert(r.v.size() == e.size(), "not one row for each file"); std::vector<bool> done(e.size());
  for (std::size_t i = 0; i < r.v.size(); ++i) { bool ok = false; for (std::size_t j = 0; j < e.size(); ++j) if (!ok && !done[j] && r.at(i, "file") == path_cell(names[e[j]], fm.sep)) { done[j] = ok = true; vp_assert(r.at(i, "ID3v2 Title") == title[e[j]], "the title"); if (k) vp_assert(i == j, "the order of the files"); } vp_assert(ok, "a row for a file that should not be there"); }
  was.kept(); vp_assert(was.added().size() == 1, "a file was added"); if (hit) vp_cover("a file that cannot be read"); else vp_cover("several files");
}
void h_report_usage() {
  vpfs::reset(); mp3 f; f.audio = some_audio(2); vpfs::put("/w/a.mp3", f.all()); snapshot was; static const args_t bad[] = {{}, {"a.mp3"}, {"-o", "out"}, {"--nosuch", "-o", "out", "a.mp3"}, {"-o", "/nosuch/out", "a.mp3"}, {"-t", "-o", "/nosuch/out", "a.mp3"}, {"-o", "out", "-c", "x", "a.mp3"}, {"-o", "out", "-1", "nosuch", "a.mp3"}, {"a.mp3", "-o"}, {"-o", "/w/sub", "a.mp3"}, {"-t", "-o", "/w/sub", "a.mp3"}}; vp_assert(run("report", bad[vp_choice(0, 10, "usage")]) != 0, "a request that makes no sense is refused"); was.untouched(); vp_cover("refused request");
}
void h_report_missing() { vpfs::reset(); mp3 f; f.audio = some_audio(2); vpfs::put("/w/a.mp3", f.all()); snapshot was; form fm = any_form(); vp_assert(run("report", fm.args + args_t{"-o", "out"} + (vp_flag("first") ? args_t{"a.mp3", "nosuch.mp3"} : args_t{"nosuch.mp3", "a.mp3"})) != 0, "success is reported though a file is missing"); was.kept(); read("/w/out", fm.sep); vp_cover("missing file"); }
void h_report_fault() {
  vpfs::reset(); form fm = any_form(); mp3 f; bytes a = plain(1, "title", fm.sep); f.tags = {mk_tag(3, {plain_text(3, "TT2", "TIT2", a)}, 3)}; f.audio = some_audio(2); vpfs::put("/w/a.mp3", f.all()); mp3 h = f; h.tags.clear(); vpfs::put("/w/b.mp3", h.all()); snapshot was; vpfs::fail_at = vp_choice(1, 40, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); int rc = run("report", fm.args + args_t{"-o", "out", "a.mp3", "b.mp3"}); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0; was.kept({"/w/out"});
  if (rc == 0) { report r = read("/w/out", fm.sep); vp_assert(r.v.size() == 2, "success is reported though the report is not complete"); vp_assert(r.at(0, "ID3v2 Title") == a && r.at(0, "file") == path_cell("a.mp3", fm.sep) && r.at(1, "file") == path_cell("b.mp3", fm.sep), "success is reported though the report is not complete"); if (!hit) vp_cover("no fault"); } else { vp_assert(hit, "the command fails"); vp_cover("fault reported"); }
}
}
