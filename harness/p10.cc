// P10: rewriting a file's tags never harms its audio or loses the original.
#include "edit.hh"
#include <scribbu/tagset.hh>
#include <vpfs.hh>
typedef std::vector<std::unique_ptr<id3v2_tag>> tagset;
typedef apply_unsync AU;
// ---- a file ----------------------------------------------------------------------------
struct file { bytes tags, audio, v1; bytes all() const { return tags + audio + v1; } };
static bytes old_tag(int ver, int n, bool footer = false) {
  bytes body(n, 'x'); if (n) { body[0] = 'T'; bytes x = any_text(1, "old"); body[n - 1] = x[0]; } bytes r = raw_tag(ver, body, 0, footer ? 0x10 : 0); if (footer) r += "3DI" + r.substr(3, 7); return r;
}
static bytes some_audio(int n) { bytes a = any_text(n, "audio"); if (n) vp_assume(a[0] != 'I'); return a; }
static bytes some_v1(int kind) { if (!kind) return bytes(); bytes t("TAG"); t += any_text(1, "v1"); t.resize(128, 'v'); if (kind == 1) return t; bytes e("TAG+"); e += any_text(1, "v1+"); e.resize(227, 'w'); return e + t; }
// ---- the directory ---------------------------------------------------------------------
struct ent { std::string name; bytes data; };
static std::vector<ent> before;
static void remember() { before.clear(); for (std::size_t i = 0; i < vpfs::count(); ++i) if (!vpfs::at(i)->dir) before.push_back(ent{vpfs::at(i)->name, vpfs::at(i)->data}); }
static bool existed(const std::string &n) { for (auto &e : before) if (e.name == n) return true; return false; }
static bool same(const bytes &a, const bytes &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
// no file but the one worked on differs from what it was
static void others_kept(const std::string &target) {
  for (auto &e : before) if (e.name != target) { vpfs::node *p = vpfs::find(e.name); vp_assert(p, "a file not worked on is gone"); vp_assert(same(p->data, e.data), "a file not worked on was changed"); }
}
static std::size_t added(const std::string &target) { std::size_t n = 0; for (std::size_t i = 0; i < vpfs::count(); ++i) { vpfs::node *p = vpfs::at(i); if (!p->dir && p->name != target && !existed(p->name)) ++n; } return n; }
static bool is_backup_name(const std::string &n, const std::string &target) {
  if (n.size() < target.size() + 2 || n.compare(0, target.size(), target) != 0 || n[target.size()] != '.') return false;
  for (std::size_t i = target.size() + 1; i < n.size(); ++i) if (n[i] < '0' || n[i] > '9') return false; return true;
}
static vpfs::node *new_backup(const std::string &target) { for (std::size_t i = 0; i < vpfs::count(); ++i) { vpfs::node *p = vpfs::at(i); if (!p->dir && !existed(p->name) && is_backup_name(p->name, target)) return p; } return 0; }
// some file that was not there before, or the target, is one of the two
static bool kept_somewhere(const std::string &target, const bytes &a, const bytes &b) {
  bool r = false; for (std::size_t i = 0; i < vpfs::count(); ++i) { vpfs::node *p = vpfs::at(i); if (p->dir || (p->name != target && existed(p->name))) continue; r |= same(p->data, a) | same(p->data, b); } return r;
}
static void neighbours(int k) {
  vpfs::put("/w/b.mp3", "other"); vpfs::put("/tmp/zz", "temp");
  for (const char *d : {"/w/", "/w/sub/"}) { std::string b(d); b += "a.mp3";
    switch (k) {
    case 0: break;
    case 1: vpfs::put(b + ".1", "first"); break;
    case 2: vpfs::put(b + ".1", "first"); vpfs::put(b + ".2", "second"); break;
    case 3: vpfs::put(b + ".3", "third"); vpfs::put(b + ".10", "tenth"); break;
    case 4: vpfs::put(b + ".", "dot"); vpfs::put(b + ".1x", "1x"); vpfs::put(b + "1", "none"); vpfs::put(b + ".1.1", "1.1"); break;
    case 5: { bytes x = any_text(1, "suffix"); vp_assume(x[0] >= '0' && x[0] <= '9'); x[0] = vp_conc(x[0]); vpfs::put(b + "." + x, "digit"); break; }
    } }
}
static const char *const names[] = {"/w/a.mp3", "a.mp3", "sub/a.mp3", "./a.mp3", "/w//a.mp3", "/w/sub/a.mp3", "sub/../a.mp3"};
// ---- new tags --------------------------------------------------------------------------
template <class V> static std::unique_ptr<id3v2_tag> made(int kind, int pad) {
  auto *t = new typename V::tag(pad); std::unique_ptr<id3v2_tag> r(t);
  if (kind == 0) t->title(word(1, "title")); else if (kind == 1) t->push_back(V::mk_other(any_text(1, "data"))); else if (kind == 2) t->push_back(V::mk_other(any_text(2, "data")));
  return r;
}
static std::unique_ptr<id3v2_tag> made(int ver, int kind, int pad) { return ver == 2 ? made<V2>(kind, pad) : ver == 3 ? made<V3>(kind, pad) : made<V4>(kind, pad); }
static bytes written(const tagset &ts, AU u) { bytes r; for (auto &t : ts) r += save(*t, u == AU::always || (u == AU::as_needed && t->needs_unsynchronisation())); return r; }
static AU any_unsync() { static const AU us[] = {AU::never, AU::always, AU::as_needed}; return us[vp_choice(0, 2, "unsync")]; }
static std::vector<content> contents(const tagset &ts) { std::vector<content> r; for (auto &t : ts) r.push_back(decode(save(*t, false))); return r; }
// b begins with tags of those contents (padding aside); returns where they end
static std::size_t holds(const bytes &b, const std::vector<content> &cs, AU u, std::vector<int> *pads = 0) {
  std::size_t at = 0;
  for (auto &c : cs) {
    content d = decode(b.substr(at)); vp_assert(d.ver == c.ver && d.frames.size() == c.frames.size(), "the file does not hold the tags asked for"); if (pads) pads->push_back(d.pad);
    for (std::size_t i = 0; i < d.frames.size(); ++i) { vp_assert(same(d.frames[i].id, c.frames[i].id) & same(d.frames[i].body, c.frames[i].body), "a frame differs from the one asked for"); }
    if (u == AU::never) vp_assert(!(d.flags & 0x80), "unsynchronised though told not to"); if (u == AU::always) vp_assert(d.flags & 0x80, "not unsynchronised though told to");
    at += d.end;
  }
  return at;
}
template <class F> static bool failed(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
// ---- rewriting by copying --------------------------------------------------------------
static void copied(const std::string &name, const file &f, tagset &ts, AU u, bool keep, bool fresh = true) {
  std::string target = vpfs::abs(name); if (fresh) vpfs::put(target, f.all()); remember();
  bytes old = f.all(), now = written(ts, u) + f.audio + f.v1; auto cs = contents(ts);
  bool bad = failed([&] { replace_tagset_copy(name, ts.begin(), ts.end(), u, keep); });
  vpfs::node *p = vpfs::find(target); others_kept(target);
  if (vpfs::stopped) {
    vp_assert(kept_somewhere(target, old, now), "a stop leaves neither the old nor the new file"); vp_cover("copy stopped");
    if (!vpfs::cross_device) vp_assert(p && (same(p->data, old) | same(p->data, now)), "a stop leaves the file incomplete");
    return;
  }
  vp_assert(p, "the file is gone");
  if (bad) { vp_assert(vpfs::fail_at != 0, "a rewrite fails for no reason"); vp_assert(same(p->data, old) | same(p->data, now), "a failure leaves the file incomplete"); vp_cover("copy failed"); return; }
  vp_assert(same(p->data, now), "the rewritten file is not the new tags and the old audio"); std::size_t end = holds(p->data, cs, u); vp_assert(same(p->data.substr(end), f.audio + f.v1), "the audio was changed"); vp_cover("copied");
  if (keep) { vpfs::node *b = new_backup(target); vp_assert(b, "no backup was made"); vp_assert(same(b->data, old), "the backup is not the original"); vp_assert(added(target) == 1, "files besides the backup are left"); vp_cover("backup kept"); }
  else { vp_assert(added(target) == 0, "files are left behind"); vp_cover("no backup kept"); }
}
static tagset some_tags(int n, int kinds) {
  tagset ts; for (int i = 0; i < n; ++i) ts.push_back(made(vp_choice(2, 4, "version"), vp_choice(0, kinds, "kind"), vp_choice(0, 1, "pad") * 3)); return ts;
}
extern "C" {
void h_copy_layout() {
  vpfs::reset(); file f; int n = vp_choice(0, 2, "old tags"); for (int i = 0; i < n; ++i) { int v = vp_choice(2, 4, "old version"); f.tags += old_tag(v, vp_choice(0, 1, "old size") * 13, v == 4 && vp_flag("footer")); }
  f.audio = some_audio(vp_choice(0, 1, "audio bytes") * 3); f.v1 = some_v1(vp_choice(0, 1, "v1"));
  tagset ts = some_tags(vp_choice(0, 1, "new tags"), 0); copied("/w/a.mp3", f, ts, AU::never, true);
}
void h_copy_tags() {
  vpfs::reset(); file f; f.tags = old_tag(3, 13); f.audio = some_audio(2);
  tagset ts = some_tags(vp_choice(0, 2, "new tags"), 1); AU u = any_unsync(); copied("/w/a.mp3", f, ts, u, false);
}
void h_copy_names() {
  vpfs::reset(); file f; f.tags = old_tag(3, 13); f.audio = some_audio(1); tagset ts; ts.push_back(made(3, 0, 0));
  neighbours(vp_choice(0, 5, "neighbours")); vpfs::cross_device = vp_flag("devices"); std::string name = names[vp_choice(0, 6, "name")];
  copied(name, f, ts, AU::never, vp_flag("keep"));
  if (vp_flag("again")) { file g; g.tags = written(ts, AU::never); g.audio = f.audio; tagset us; us.push_back(made(4, 0, 0)); copied(name, g, us, AU::never, true, false); vp_cover("two backups"); }
}
void h_copy_fail() {
  vpfs::reset(); file f; if (vp_flag("old tag")) f.tags = old_tag(3, 13) + old_tag(4, 5, true); f.audio = some_audio(1); tagset ts; if (vp_flag("new tag")) ts.push_back(made(3, 0, 0));
  neighbours(vp_choice(0, 1, "neighbours")); vpfs::cross_device = vp_flag("devices"); vpfs::partial = vp_choice(0, 2, "partial");
  unsigned char n = vp_any<unsigned char>("fails"); vp_assume(n >= 1 && n <= 60); vpfs::fail_at = n; copied("/w/a.mp3", f, ts, AU::never, vp_flag("keep")); vp_assert(vpfs::ops < 60, "more operations than the bound");
}
void h_copy_stop() {
  vpfs::reset(); file f; if (vp_flag("old tag")) f.tags = old_tag(3, 13); f.audio = some_audio(1); tagset ts; if (vp_flag("new tag")) ts.push_back(made(3, 0, 0));
  neighbours(vp_choice(0, 1, "neighbours")); vpfs::cross_device = vp_flag("devices"); vpfs::partial = vp_choice(0, 2, "partial");
  unsigned char n = vp_any<unsigned char>("stops"); vp_assume(n >= 1 && n <= 60); vpfs::stop_at = n; copied("/w/a.mp3", f, ts, AU::never, vp_flag("keep")); vp_assert(vpfs::changes < 60, "more operations than the bound");
}
}
// ---- in place where possible -----------------------------------------------------------
static void rewritten(const std::string &name, const file &f, tagset &ts, AU u, emplace_strategy es, bool keep) {
  std::string target = vpfs::abs(name); vpfs::put(target, f.all()); remember();
  bytes old = f.all(), copy = written(ts, u) + f.audio + f.v1; std::size_t least = 0, pad = 0; for (auto &t : ts) pad += t->padding(); least = copy.size() - f.audio.size() - f.v1.size() - pad; auto cs = contents(ts);
  std::vector<std::size_t> had; for (auto &t : ts) had.push_back(t->padding());
  bool bad = failed([&] { maybe_emplace_tagset(name, ts.begin(), ts.end(), u, es, padding_strategy::adjust_padding_evenly, keep); });
  vpfs::node *p = vpfs::find(target); others_kept(target); std::size_t nt = f.tags.size();
  if (vpfs::stopped || bad) {
    bool here = p && p->data.size() == old.size() && same(p->data.substr(nt), f.audio + f.v1);
    if (!vpfs::stopped) vp_assert(vpfs::fail_at != 0, "a rewrite fails for no reason");
    vp_assert(here || kept_somewhere(target, old, copy), "a failure or stop harms the audio"); vp_cover("rewrite stopped or failed"); return;
  }
  vp_assert(p, "the file is gone");
  std::vector<int> pads; std::size_t end = holds(p->data, cs, u, &pads);
  vp_assert(same(p->data.substr(end), f.audio + f.v1), "the audio was changed");
  bool in_place = end == nt; if (in_place) { vp_cover("in place"); } else vp_cover("by copying");
  if (in_place && !(vpfs::fail_at && keep && added(target))) vp_assert(added(target) == 0, "files are left behind");
  else if (keep) { vpfs::node *b = new_backup(target); vp_assert(b && same(b->data, old) && added(target) == 1, "the backup is not the original"); }
  else vp_assert(added(target) == 0, "files are left behind");
  if (!in_place) { vp_assert(same(p->data, copy), "copied with other tags than asked for"); for (std::size_t i = 0; i < ts.size(); ++i) vp_assert(pads[i] == had[i], "padding differs from that asked for"); }
}
static file one_old(int n) { file f; if (n) f.tags = old_tag(3, n - 10); f.audio = some_audio(2); return f; }
static emplace_strategy any_es() { return vp_flag("reduce") ? emplace_strategy::reduce_padding_evenly : emplace_strategy::only_with_full_padding; }
extern "C" {
// one new tag over an area a little larger or smaller
void h_place_one() {
  vpfs::reset(); tagset ts; ts.push_back(made(vp_choice(2, 4, "version"), vp_choice(0, 2, "kind"), vp_choice(0, 3, "pad"))); AU u = any_unsync(); std::size_t z = written(ts, u).size();
  int d = (int)vp_choice(0, 8, "difference") - 4; file f = one_old(z + d); f.v1 = some_v1(vp_choice(0, 1, "v1")); std::size_t pad = ts[0]->padding(); emplace_strategy es = any_es(); rewritten("/w/a.mp3", f, ts, u, es, vp_flag("keep"));
  bool fits = d >= 0 || (es == emplace_strategy::reduce_padding_evenly && (int)pad >= -d);
  bool in_place = vpfs::find("/w/a.mp3")->data.size() == f.all().size(); if (u == AU::never) vp_assert(in_place == fits, "in place exactly when the tags fit");
}
void h_place_two() {
  vpfs::reset(); tagset ts; for (int i = 0; i < 2; ++i) ts.push_back(made(vp_choice(2, 4, "version"), 0, vp_choice(0, 4, "pad"))); AU u = AU::never; std::size_t z = written(ts, u).size(), pad = ts[0]->padding() + ts[1]->padding();
  int d = (int)vp_choice(0, 12, "difference") - 7; file f = one_old(z + d); emplace_strategy es = any_es(); rewritten("/w/a.mp3", f, ts, u, es, false);
  bool fits = d >= 0 || (es == emplace_strategy::reduce_padding_evenly && (int)pad >= -d); bool in_place = vpfs::find("/w/a.mp3")->data.size() == f.all().size(); vp_assert(in_place == fits, "in place exactly when the tags fit");
}
void h_place_three() {
  vpfs::reset(); tagset ts; std::size_t pad = 0; for (int i = 0; i < 3; ++i) { int k = vp_choice(0, 3, "pad"); pad += k; ts.push_back(made(3, 0, k)); } std::size_t z = written(ts, AU::never).size();
  int d = (int)vp_choice(0, 12, "difference") - 8; file f = one_old(z + d); rewritten("/w/a.mp3", f, ts, AU::never, emplace_strategy::reduce_padding_evenly, false);
  bool in_place = vpfs::find("/w/a.mp3")->data.size() == f.all().size(); vp_assert(in_place == (d >= 0 || (int)pad >= -d), "in place exactly when the tags fit");
}
// removing every tag, inserting into a file without
void h_place_edges() {
  vpfs::reset(); file f; int n = vp_choice(0, 2, "old tags"); for (int i = 0; i < n; ++i) { int v = vp_choice(2, 4, "old version"); f.tags += old_tag(v, vp_choice(0, 1, "old size") * 13, v == 4 && vp_flag("footer")); }
  f.audio = some_audio(vp_choice(0, 1, "audio bytes") * 3); f.v1 = some_v1(vp_choice(0, 2, "v1")); tagset ts; if (vp_flag("new tag")) ts.push_back(made(3, 0, vp_choice(0, 1, "pad"))); rewritten("a.mp3", f, ts, AU::never, any_es(), vp_flag("keep"));
}
// tags read from elsewhere, with extended headers and footers
void h_place_read() {
  vpfs::reset(); sample s{(int)vp_choice(3, 4, "version")}; s.pad = vp_choice(0, 2, "pad"); bool ext = vp_flag("extended"); if (ext) s.flags = 0x40; if (s.ver == 4 && !s.pad && vp_flag("footer")) s.flags |= 0x10; bool crc = ext && vp_flag("crc");
  if (ext) s.ext = s.ver == 3 ? be(crc ? 10 : 6, 4) + bytes(1, (char)(crc ? 0x80 : 0)) + bytes(1, 0) + be(s.pad, 4) + (crc ? any_text(4, "checksum") : bytes()) : crc ? ss(12) + bytes(1, 1) + bytes(1, 0x20) + bytes(1, 5) + bytes(5, 1) : ss(6) + bytes(1, 1) + bytes(1, 0);
  s.frames.push_back(other_frame(s.ver, 1)); encode(s); tagset ts; ts.push_back(load(s)); AU u = any_unsync(); std::size_t z = written(ts, u).size(); file f = one_old(z + vp_choice(0, 6, "difference") - 3); rewritten("/w/a.mp3", f, ts, u, any_es(), false); vp_cover("tag read from elsewhere");
}
// sizes around those of buffers and of the bytes of size fields
void h_large() {
  vpfs::reset(); static const int ts_[] = {127, 128, 255, 256, 16383, 16384}, as[] = {10, 4096, 8191, 8192, 16500}; file f; f.tags = old_tag(3, ts_[vp_choice(0, 5, "old size")]); f.audio = some_audio(1); f.audio.resize(as[vp_choice(0, 4, "audio size")], 'I'); f.audio += some_audio(1); bool v1 = vp_flag("v1"); f.v1 = some_v1(v1);
  tagset ts; int k = vp_choice(0, 2, "new padding"); ts.push_back(made(3, 0, k == 0 ? 0 : k == 1 ? 300 : 17000)); if (vp_flag("in place")) rewritten("/w/a.mp3", f, ts, AU::never, emplace_strategy::reduce_padding_evenly, false); else copied("/w/a.mp3", f, ts, AU::never, true); vp_cover("large file");
}
static void place_faults() {
  tagset ts; ts.push_back(made(3, 0, 12)); std::size_t z = written(ts, AU::never).size(); file f; int k = vp_choice(0, 3, "layout");
  if (k == 1) f.tags = old_tag(3, z - 10 + vp_choice(0, 1, "larger")); else if (k == 2) f.tags = old_tag(3, 0) + old_tag(4, z - 20 - 10, true); else if (k == 3) f.tags = old_tag(2, z - 11);
  f.audio = some_audio(1); vpfs::cross_device = vp_flag("devices"); vpfs::partial = vp_choice(0, 2, "partial"); rewritten("/w/a.mp3", f, ts, AU::never, any_es(), vp_flag("keep"));
}
void h_place_fail() { vpfs::reset(); unsigned char n = vp_any<unsigned char>("fails"); vp_assume(n >= 1 && n <= 60); vpfs::fail_at = n; place_faults(); vp_assert(vpfs::ops < 60, "more operations than the bound"); }
void h_place_stop() { vpfs::reset(); unsigned char n = vp_any<unsigned char>("stops"); vp_assume(n >= 1 && n <= 60); vpfs::stop_at = n; place_faults(); vp_assert(vpfs::changes < 60, "more operations than the bound"); }
// exact replacement
void h_exact() {
  vpfs::reset(); tagset ts; int n = vp_choice(1, 2, "tags"); for (int i = 0; i < n; ++i) ts.push_back(made(vp_choice(2, 4, "version"), vp_choice(0, 1, "kind"), vp_choice(0, 1, "pad"))); AU u = any_unsync(); bytes w = written(ts, u); auto cs = contents(ts);
  int d = (int)vp_choice(0, 2, "difference") - 1; file f = one_old(w.size() + d); vpfs::put("/w/a.mp3", f.all()); remember();
  bool bad = failed([&] { replace_tagset_emplace("/w/a.mp3", ts.begin(), ts.end(), u); });
  vp_assert(bad == (d != 0), "replaced in place exactly when the sizes are the same"); vpfs::node *p = vpfs::find("/w/a.mp3");
  if (bad) { vp_assert(same(p->data, f.all()), "refused but changed"); vp_cover("sizes differ"); } else { vp_assert(same(p->data, w + f.audio), "not the tags asked for"); holds(p->data, cs, u); vp_cover("sizes agree"); }
  others_kept("/w/a.mp3"); vp_assert(added("/w/a.mp3") == 0, "files are left behind");
}
// a file that is not there yet
void h_new_file() {
  vpfs::reset(); tagset ts; int k = vp_choice(1, 2, "tags"); for (int i = 0; i < k; ++i) ts.push_back(made(vp_choice(2, 4, "version"), 0, 1)); bytes w = written(ts, AU::never); remember(); unsigned char n = vp_any<unsigned char>("fails"); vp_assume(n <= 30); vpfs::fail_at = n; vpfs::partial = vp_choice(0, 2, "partial");
  bool bad = failed([&] { maybe_emplace_tagset("/w/a.mp3", ts.begin(), ts.end(), AU::never, any_es(), padding_strategy::adjust_padding_evenly, vp_flag("keep")); }); vpfs::node *p = vpfs::find("/w/a.mp3"); others_kept("/w/a.mp3");
  if (!bad) { vp_assert(p && same(p->data, w), "a failing operation is not reported"); vp_cover("file made"); } else { vp_assert(vpfs::fail_at != 0, "fails for no reason"); vp_cover("making a file failed"); } vp_assert(vpfs::ops < 30, "more operations than the bound");
}
}
// ---- ID3v1 -----------------------------------------------------------------------------
static void v1_check(const file &f, const bytes &want, bool bad, const char *lost) {
  vpfs::node *p = vpfs::find("/w/a.mp3"); others_kept("/w/a.mp3"); vp_assert(added("/w/a.mp3") == 0, "files are left behind"); vp_assert(p, "the file is gone");
  bytes front = f.tags + f.audio; vp_assert(p->data.size() >= front.size() && same(p->data.substr(0, front.size()), front), "replacing the ID3v1 tag harms what precedes it");
  if (!bad && !vpfs::stopped) { vp_assert(same(p->data, front + want), lost); vp_cover("ID3v1 replaced or removed"); } else if (!vpfs::stopped) { vp_assert(vpfs::fail_at != 0, "fails for no reason"); vp_cover("ID3v1 operation failed"); }
}
static file v1_file() { file f; f.tags = vp_flag("tag") ? old_tag(3, 5) : bytes(); f.audio = some_audio(vp_choice(0, 1, "audio bytes") * 2); f.v1 = some_v1(vp_choice(0, 2, "v1")); vpfs::put("/w/a.mp3", f.all()); remember(); return f; }
static void v1_faults() { unsigned char n = vp_any<unsigned char>("fails"); vp_assume(n <= 30); if (vp_flag("stop")) vpfs::stop_at = n; else vpfs::fail_at = n; vpfs::partial = vp_choice(0, 2, "partial"); }
extern "C" {
void h_v1_remove() { vpfs::reset(); file f = v1_file(); v1_faults(); bool bad = failed([&] { maybe_remove_id3v1("/w/a.mp3"); }); v1_check(f, bytes(), bad, "the ID3v1 tag was not removed, or more than it"); vp_assert(vpfs::ops < 30, "more operations than the bound"); }
void h_v1_replace() {
  vpfs::reset(); bytes raw = some_v1(vp_choice(1, 2, "new v1")); std::istringstream is(raw); auto t = process_id3v1(is); vp_assert((bool)t, "an ID3v1 tag"); std::ostringstream os; t->write(os); bytes want = os.str();
  file f = v1_file(); v1_faults(); bool bad = failed([&] { replace_id3v1("/w/a.mp3", *t); }); v1_check(f, want, bad, "the file does not end in the new ID3v1 tag"); vp_assert(vpfs::ops < 30, "more operations than the bound");
}
void h_v1_new() {
  vpfs::reset(); bytes raw = some_v1(1); std::istringstream is(raw); auto t = process_id3v1(is); remember(); bool there = vp_flag("there"); if (there) vpfs::put("/w/b", "x"); remember(); v1_faults();
  bool bad = failed([&] { if (vp_flag("remove")) maybe_remove_id3v1("/w/a.mp3"); else { replace_id3v1("/w/a.mp3", *t); vpfs::node *p = vpfs::find("/w/a.mp3"); if (!vpfs::stopped) vp_assert(p && p->data.size() == 128 && p->data.compare(0, 3, "TAG") == 0, "a new file with an ID3v1 tag"); } }); others_kept("/w/a.mp3"); if (bad) vp_cover("new ID3v1 failed");
}
}
