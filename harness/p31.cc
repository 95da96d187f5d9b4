// P31: options set in the environment.
#include "cmd.hh"
#include <boost/program_options.hpp>
static const std::string F("/w/a.mp3");
// a variable and the option it stands for; empty sample value: a switch
struct env_opt { const char *var, *opt, *value; };
struct result { int status; bytes out; std::vector<ent> files; };
static void environment(const std::vector<std::pair<std::string, std::string>> &e) { boost::program_options::vp_environment() = e; }
static result run_on(const char *cmd, const bytes &data, const args_t &args) {
  vpfs::reset(); for (auto &e : snapshot().v) { bool was; vpfs::remove(e.name, &was); } vpfs::reset(); vpfs::put(F, data); capture c; result r; r.status = run(cmd, args); r.out = c.text(); r.files = snapshot().v; return r;
}
static bool find(const result &r, const ent &e) { for (auto &x : r.files) if (x.name == e.name) return same(x.data, e.data); return false; }
static void alike(const result &a, const result &b) {
  vp_assert(a.status == b.status, "the status depends on where an option is given"); vp_assert(a.files.size() == b.files.size(), "the files depend on where an option is given"); for (auto &e : a.files) vp_assert(find(b, e), "a file depends on where an option is given"); vp_assert(same(a.out, b.out), "the output depends on where an option is given");
}
static bytes some_file(const frame &fr, bool t, bool v1) {
  mp3 f; if (t) f.tags.push_back(mk_tag(3, {fr, mk("ZAB", "ZABC", 3, "\xff\xe0")}, 40)); f.audio = some_audio(1); if (v1) f.v1 = mk_v1(9, "\xe9\x80"); return f.all();
}
static const char *const yes[] = {"1", "true", "on", "YES", ""}, *const no[] = {"0", "false", "Off", "no"}, *const bad[] = {"2", "x", "tru"};
template <int N> static void same_as_option(const char *cmd, const env_opt (&o)[N], const args_t &args, const frame &fr, bool tags = true) {
  const env_opt &e = o[vp_choice(0, N - 1, "variable")]; bytes data = some_file(fr, tags ? vp_flag("tag") : true, vp_flag("v1")); bool sw = !*e.value; int how = vp_choice(0, sw ? 3 : 2, "how"); std::string opt = std::string("--") + e.opt; args_t given = sw ? args_t{opt} : args_t{opt, e.value};
  std::string odd = "SCRIBBU_" + word(3, "name");
  if (how == 0) { environment({{odd, "1"}}); result a = run_on(cmd, data, args); environment({}); alike(a, run_on(cmd, data, args)); vp_cover("other variables"); }
  else if (how == 1) { std::string v(sw ? yes[vp_choice(0, 4, "value")] : e.value); environment({{"HOME", "/w"}, {e.var, v}, {odd, "x"}}); result a = run_on(cmd, data, args); environment({}); alike(a, run_on(cmd, data, given + args)); if (sw) vp_cover("switch"); else vp_cover("value"); }
  else if (how == 2) {
    if (sw) { int v = vp_choice(0, 4, "value"); args_t all = v == 4 ? given + args : args; environment({{e.var, no[v & 3]}}); result a = run_on(cmd, data, all); environment({}); alike(a, run_on(cmd, data, all)); if (v < 4) vp_cover("switched off"); }
    else { environment({{e.var, "/w"}}); result a = run_on(cmd, data, given + args); environment({}); alike(a, run_on(cmd, data, given + args)); vp_cover("command line first"); }
  } else { environment({{e.var, bad[vp_choice(0, 2, "value")]}}); result a = run_on(cmd, data, args); vp_assert(a.status != 0, "a value that makes no sense is taken"); vp_assert(a.files.size() == 1 && find(a, ent{F, data}), "files are changed though the request makes no sense"); vp_cover("refused"); }
}
extern "C" {
void h_env_genre() {
  static const env_opt o[] = {{"SCRIBBU_ADJUST_UNSYNC", "adjust-unsync", ""}, {"SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2", ""}, {"SCRIBBU_ALWAYS_CREATE_V1", "always-create-v1", ""}, {"SCRIBBU_CREATE_BACKUPS", "create-backups", ""}, {"SCRIBBU_CREATE_V1", "create-v1", ""}, {"SCRIBBU_CREATE_V2", "create-v2", ""}, {"SCRIBBU_DRY_RUN", "dry-run", ""}, {"SCRIBBU_V1_ONLY", "v1-only", ""}, {"SCRIBBU_V2_ONLY", "v2-only", ""}, {"SCRIBBU_VERBOSE", "verbose", ""}};
  same_as_option("genre", o, {"-w", "17", F}, plain_text(3, "TCO", "TCON", word(1, "text")));
}
void h_env_text() {
  static const env_opt o[] = {{"SCRIBBU_ADJUST_UNSYNC", "adjust-unsync", ""}, {"SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2", ""}, {"SCRIBBU_CREATE_BACKUPS", "create-backups", ""}, {"SCRIBBU_CREATE_V2", "create-v2", ""}, {"SCRIBBU_ENCODING", "encoding", "ISO-8859-1"}};
  same_as_option("text", o, {"-T", "\xc3\xa4", F}, plain_text(3, "TT2", "TIT2", word(1, "text")));
}
void h_env_xtag() {
  static const env_opt o[] = {{"SCRIBBU_ADJUST_UNSYNC", "adjust-unsync", ""}, {"SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2", ""}, {"SCRIBBU_CREATE", "create-frame", ""}, {"SCRIBBU_CREATE_V2", "create-v2", ""}, {"SCRIBBU_CREATE_BACKUPS", "create-backups", ""}, {"SCRIBBU_DRY_RUN", "dry-run", ""}, {"SCRIBBU_OWNER", "owner", "me"}};
  bool there = vp_flag("frame"); same_as_option("xtag", o, {"-T", "k=a", F}, there ? mk("XTG", "XTAG", 3, raw_cloud(vp_flag("mine") ? "me" : "you", raw_key(word(1, "key"), {"v"}))) : plain_text(3, "TT2", "TIT2", word(1, "text")));
}
void h_env_popm() {
  static const env_opt o[] = {{"SCRIBBU_ADJUST_UNSYNC", "adjust-unsync", ""}, {"SCRIBBU_CREATE", "create-frame", ""}, {"SCRIBBU_CREATE_BACKUPS", "create-backups", ""}, {"SCRIBBU_DRY_RUN", "dry-run", ""}, {"SCRIBBU_OWNER", "owner", "me"}, {"SCRIBBU_VERBOSE", "verbose", ""}};
  bool there = vp_flag("frame"); same_as_option("popm", o, {"-m", "-C", "7", F}, there ? mk("POP", "POPM", 3, bytes(vp_flag("mine") ? "me" : "you") + nul() + word(1, "rating") + bytes(3, '\0') + "\5") : plain_text(3, "TT2", "TIT2", word(1, "text")));
}
void h_env_rename() {
  static const env_opt o[] = {{"SCRIBBU_DRY_RUN", "dry-run", ""}, {"SCRIBBU_OUTPUT", "output", "/w/sub"}, {"SCRIBBU_VERBOSE", "verbose", ""}};
  bytes t = word(1, "title"); vp_assume(t[0] != '/' && t[0] != '.' && (t[0] < 'a' || t[0] > 'z')); same_as_option("rename", o, {"-t", "%T%E", F}, plain_text(3, "TT2", "TIT2", t), false);
}
void h_env_dump() {
  static const env_opt o[] = {{"SCRIBBU_NUM_COMMENTS", "num-comments", "1"}, {"SCRIBBU_V1_ENCODING", "v1-encoding", "ISO-8859-1"}};
  const env_opt &e = o[vp_choice(0, 1, "variable")]; bytes data = some_file(plain_text(3, "TT2", "TIT2", word(1, "text")), vp_flag("tag"), vp_flag("v1")); args_t args = {"-f", "csv", F}; std::string opt = std::string("--") + e.opt;
  environment({{e.var, e.value}}); result a = run_on("dump", data, args); environment({}); alike(a, run_on("dump", data, args_t{opt, e.value} + args)); vp_cover("listing");
}
}
