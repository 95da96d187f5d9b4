// P29: scripts get an ID3v2 tag's frames and give them back.
#include "scm.hh"
struct kind { const char *id2, *id4, *sym; };
static const kind texts[] = {{"TAL", "TALB", "album-frame"}, {"TP1", "TPE1", "artist-frame"}, {"TP2", "TPE2", "band-frame"}, {"TBP", "TBPM", "bpm-frame"}, {"TCM", "TCOM", "composer-frame"}, {"TP3", "TPE3", "conductor-frame"}, {"TT1", "TIT1", "content-group-frame"}, {"TCR", "TCOP", "copyright-frame"}, {"TDA", "TDAT", "date-frame"}, {"TEN", "TENC", "encoded-by-frame"}, {0, "TOWN", "file-owner-frame"}, {"TFT", "TFLT", "file-type-frame"}, {"TCO", "TCON", "genre-frame"}, {"TKE", "TKEY", "initial-key-frame"}, {"TP4", "TPE4", "interpreted-by-frame"}, {"TRC", "TSRC", "isrc-frame"}, {"TLA", "TLAN", "langs-frame"}, {"TLE", "TLEN", "length-frame"}, {"TXT", "TEXT", "lyricist-frame"}, {"TMT", "TMED", "media-type-frame"}, {"TOT", "TOAL", "original-album-frame"}, {"TOA", "TOPE", "original-artist-frame"}, {"TOF", "TOFN", "original-filename-frame"}, {"TOL", "TOLY", "original-lyricist-frame"}, {"TOR", "TORY", "original-release-year-frame"}, {"TPA", "TPOS", "part-of-a-set-frame"}, {"TDY", "TDLY", "playlist-delay-frame"}, {"TPB", "TPUB", "publisher-frame"}, {"TRD", "TRDA", "recording-dates-frame"}, {"TSS", "TSSE", "settings-frame"}, {"TSI", "TSIZ", "size-frame"}, {0, "TRSN", "station-name-frame"}, {0, "TRSO", "station-owner-frame"}, {"TT3", "TIT3", "subtitle-frame"}, {"TIM", "TIME", "time-frame"}, {"TT2", "TIT2", "title-frame"}, {"TRK", "TRCK", "track-frame"}, {"TYE", "TYER", "year-frame"}};
static void text_is(const frame &f, const chars &t, const char *what = "the text was changed") { vp_assert(f.body.size() >= 1, "a text frame has an encoding"); int e = vp_conc((u8)f.body[0]); vp_assert(e <= 3, "encoding"); std::size_t at = 1; chars r = read_chars(e, f.body, at); vp_assert(same_chars(r, t), what); vp_assert(at >= f.body.size(), "something follows the text"); }
static void two_are(const frame &f, std::size_t at, const chars &d, const chars &t) { int e = vp_conc((u8)f.body[0]); vp_assert(e <= 3, "encoding"); vp_assert(same_chars(read_chars(e, f.body, at), d), "the description was changed"); vp_assert(same_chars(read_chars(e, f.body, at), t), "the text was changed"); vp_assert(at >= f.body.size(), "something follows the text"); }
extern "C" {
// every text frame under its own name
void h_scm_names() {
  start(); int ver = vp_choice(2, 4, "version"), k = vp_choice(0, 37, "kind"); if (ver == 2 && !texts[k].id2) return; chars t = some_chars(0, 1, "text"); one o = read_one(ver, text_of(ver, texts[k].id2, texts[k].id4, 0, t)); vp_assert(is_sym(slot(o.frame, "id"), texts[k].sym), "the frame has another name"); vp_assert(is_text(slot(o.frame, "text"), utf8(t)), "the text a script sees"); text_is(written(o, ver).frames[0], t); vp_cover("names");
}
// text in every encoding, every flag
void h_scm_text() {
  start(); int ver = vp_choice(2, 4, "version"), enc = enc_for(ver), n = vp_choice(0, 2, "length"); chars t = some_chars(enc, n, "text"); frame f = text_of(ver, "TT2", "TIT2", enc, t); if (n == 1) some_flags(ver, f); if (ver == 4 && vp_flag("unsync")) f.f1 = 2; one o = read_one(ver, f); flags_are(o.frame, ver, f); vp_assert(is_text(slot(o.frame, "text"), utf8(t)), "the text a script sees"); text_is(written(o, ver).frames[0], t); vp_cover("text");
}
void h_scm_comment() {
  start(); int ver = vp_choice(2, 4, "version"), enc = enc_for(ver), n = vp_choice(0, 2, "length"); chars d = some_chars(enc, n == 2, "dsc"), t = some_chars(enc, n > 0, "text"); static const char *const langs[] = {"eng", "fra", "zul"}; bytes lang(langs[n < 2 ? vp_choice(0, 2, "lang") : 0]); frame f = comment_of(ver, enc, lang, d, t); if (n == 1 && !enc) some_flags(ver, f); if (ver == 4 && vp_flag("unsync")) f.f1 = 2;
  one o = read_one(ver, f); vp_assert(is_sym(slot(o.frame, "id"), "comment-frame"), "a comment"); flags_are(o.frame, ver, f); vp_assert(is_text(slot(o.frame, "lang"), lang), "the language a script sees"); vp_assert(is_text(slot(o.frame, "dsc"), utf8(d)), "the description a script sees"); vp_assert(is_text(slot(o.frame, "text"), utf8(t)), "the text a script sees"); content c = written(o, ver); vp_assert(same(c.frames[0].body.substr(1, 3), lang), "the language was changed"); two_are(c.frames[0], 4, d, t); vp_cover("comment");
}
void h_scm_user_text() {
  start(); int ver = vp_choice(2, 4, "version"), enc = enc_for(ver), n = vp_choice(0, 2, "length"); chars d = some_chars(enc, n == 2, "dsc"), t = some_chars(enc, n > 0, "text"); frame f = udt_of(ver, enc, d, t); if (n == 1 && !enc) some_flags(ver, f); if (ver == 4 && vp_flag("unsync")) f.f1 = 2;
  one o = read_one(ver, f); vp_assert(is_sym(slot(o.frame, "id"), "udt-frame"), "user-defined text"); flags_are(o.frame, ver, f); vp_assert(is_text(slot(o.frame, "dsc"), utf8(d)), "the description a script sees"); vp_assert(is_text(slot(o.frame, "text"), utf8(t)), "the text a script sees"); two_are(written(o, ver).frames[0], 1, d, t); vp_cover("user text");
}
void h_scm_count() {
  // a counter of another width than four bytes, or with an owner, goes without flags
  start(); int ver = vp_choice(2, 4, "version"), nb = vp_choice(4, 5, "bytes"); bytes n = bytes(nb - 2, '\1') + any_text(2, "count"); bool play = vp_flag("play"), plain = true; u8 rt = vp_any<u8>("rating"); bytes own = word(play ? 0 : vp_choice(0, 1, "owner"), "own"); frame f = play ? mk("CNT", "PCNT", ver, n) : mk("POP", "POPM", ver, own + nul() + bytes(1, (char)rt) + n); plain = nb == 5 || own.size(); if (!plain) some_flags(ver, f); if (plain && ver == 4 && vp_flag("unsync")) f.f1 = 2;
  one o = read_one(ver, f); flags_are(o.frame, ver, f); vp_assert(is_sym(slot(o.frame, "id"), play ? "play-count-frame" : "popm-frame"), "a counter"); vp_assert(scm_to_size_t(slot(o.frame, "count")) == number(n), "the count a script sees"); content c = written(o, ver); bytes b = c.frames[0].body;
  if (!play) { vp_assert(is_text(slot(o.frame, "e-mail"), own), "the owner a script sees"); vp_assert(scm_to_int(slot(o.frame, "rating")) == rt, "the rating a script sees"); vp_assert(b.size() >= own.size() + 2 && same(b.substr(0, own.size()), own) && b[own.size()] == 0, "the owner was changed"); vp_assert((u8)b[own.size() + 1] == rt, "the rating was changed"); b = b.substr(own.size() + 2); } vp_assert(b.size() <= 8 && number(b) == number(n), "the count was changed"); vp_cover("count");
}
void h_scm_cloud() {
  start(); int ver = vp_choice(2, 4, "version"), k = vp_choice(0, 3, "keys"); bytes own = word(vp_choice(0, 1, "owner"), "own"), a = word(1, "value"), b = word(1, "value"), key = word(1, "key"); vp_assume(a[0] < b[0] && key[0] > 'a'); std::vector<bytes> vals; if (k == 1) vals = {a}; if (k > 1) vals = {a, b}; bytes body; if (k) body = raw_key(key, vals); if (k == 3) body = raw_key("a", {"v"}) + body; frame f = mk("XTG", "XTAG", ver, raw_cloud(own, body)); if (k == 2) some_flags(ver, f); if (ver == 4 && vp_flag("unsync")) f.f1 = 2;
  one o = read_one(ver, f); flags_are(o.frame, ver, f); vp_assert(is_sym(slot(o.frame, "id"), "tag-cloud-frame"), "a tag cloud"); vp_assert(is_text(slot(o.frame, "owner"), own), "the owner a script sees"); SCM l = slot(o.frame, "tags"); vp_assert(length(l) == (k == 3 ? 2 : k ? 1 : 0), "every tag is seen");
  for (int i = 0; i < length(l); ++i) { SCM e = nth(l, i); bool first = k == 3 && is_text(scm_car(e), "a"); vp_assert(first || is_text(scm_car(e), key), "the tags a script sees"); const std::vector<bytes> want = first ? std::vector<bytes>{"v"} : vals; vp_assert(length(scm_cdr(e)) == (int)want.size(), "every value is seen"); for (std::size_t j = 0; j < want.size(); ++j) vp_assert(is_text(nth(scm_cdr(e), j), want[j]), "the values a script sees"); }
  content c = written(o, ver); vp_assert(same(c.frames[0].body, f.body), "the tag cloud was changed"); vp_cover("cloud");
}
// frames without a name for scripts
void h_scm_other() {
  start(); int ver = vp_choice(2, 4, "version"), n = vp_choice(1, 3, "length"); bool priv = ver > 2 && vp_flag("private"); bytes d = any_text(n, "bytes"); frame f = mk("ZZZ", priv ? "PRIV" : "ZZZZ", ver, (priv ? bytes("o") + nul() : bytes()) + d); if (n == 2) some_flags(ver, f); if (ver == 4 && vp_flag("unsync")) f.f1 = 2; bool un = vp_flag("tag");
  one o; o.f.tags.push_back(mk_tag(ver, {f, mk("ZAB", "ZABC", ver, "x")}, 12)); if (un && ver < 4) { bytes &r = o.f.tags[0].raw, a = ref_unsync(r.substr(10), true); r[5] = (char)0x80; r = r.substr(0, 6) + ss(a.size()) + a; } else if (un) { sample &s = o.f.tags[0]; for (auto &x : s.frames) x.f1 = 2; s.flags = 0x80; encode(s); } o.f.audio = "aud"; vpfs::put(F, o.f.all());
  o.tags = read_it(); vp_assert(length(o.tags) == 1, "one tag is read"); SCM e = nth(o.tags, 0); o.tag = nth(e, 0); vp_assert(nth(e, 2) == scm_from_bool(un), "a script sees whether a tag is unsynchronised"); SCM l = slot(o.tag, "frames"); vp_assert(length(l) == 2, "every frame is read"); o.frame = nth(l, 0); flags_are(o.frame, ver, o.f.tags[0].frames[0]);
  content c = written(o, ver); vp_assert(same(c.frames[0].body, f.body), "the frame's content was changed"); vp_cover("other");
}
// several tags: kept, reordered, dropped, written in another version
void h_scm_tags() {
  start(); mp3 f; chars t[2]; int ver[2]; for (int i = 0; i < 2; ++i) { ver[i] = vp_choice(2, 4, "version"); t[i] = some_chars(0, 1, "text"); u8 fl = ver[i] > 2 && vp_flag("experimental") ? 0x20 : 0; f.tags.push_back(mk_tag(ver[i], {text_of(ver[i], "TT2", "TIT2", 0, t[i]), mk("ZAB", "ZABC", ver[i], "x")}, 5 + i, fl)); } f.audio = "aud"; if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was;
  SCM l = read_it(); vp_assert(length(l) == 2, "every tag is read"); for (int i = 0; i < 2; ++i) { SCM e = nth(l, i), x = nth(e, 0); vp_assert(length(e) == 3 && scm_to_int(nth(e, 1)) == ver[i] && nth(e, 2) == SCM_BOOL_F, "version of a tag"); vp_assert(scm_to_size_t(slot(x, "padding")) == 5u + i, "the padding a script sees"); if (ver[i] > 2) vp_assert(slot(x, "experimental") == scm_from_bool(f.tags[i].flags != 0), "the experimental flag a script sees"); vp_assert(length(slot(x, "frames")) == 2 && is_text(slot(nth(slot(x, "frames"), 0), "text"), utf8(t[i])), "the frames of a tag"); }
  was.untouched(); std::vector<int> want; int as = 0; switch (vp_choice(0, 4, "how")) { case 0: want = {0, 1}; break; case 1: want = {1}; l = scm_list_1(nth(l, 1)); break; case 2: want = {1, 0}; l = list_of({nth(l, 1), nth(l, 0)}); break; case 3: l = SCM_EOL; break; case 4: want = {0}; as = vp_choice(2, 4, "as"); SCM x = nth(nth(l, 0), 0); set(x, "frames", scm_list_1(nth(slot(x, "frames"), 0))); l = scm_list_1(list_of({x, scm_from_int(as)})); break; }
  write_it(l); found r = look(F); vp_assert(r.tags.size() == want.size(), "the tags written are those given"); vp_assert(same(r.rest, f.audio + f.v1), "the audio was changed"); if (was.added().size()) was.backed_up(F);
  for (std::size_t i = 0; i < want.size(); ++i) { const content &c = r.tags[i]; const sample &s = f.tags[want[i]]; vp_assert(c.ver == (as ? as : s.ver), "the version of a tag written"); if (c.ver > 2 && s.ver > 2) vp_assert((c.flags & 0x20) == (s.flags & 0x20), "the experimental flag was changed"); vp_assert(c.frames.size() == (as ? 1u : 2u) && is(c.frames[0], "TT2", "TIT2"), "the frames written"); text_is(c.frames[0], t[want[i]]); if (!as) vp_assert(same(c.frames[1].id, s.frames[1].id) && same(c.frames[1].body, "x"), "another frame was changed"); }
  vp_cover("several tags"); if (as && as != ver[0]) vp_cover("another version");
}
// frames made or changed by a script
void h_scm_made() {
  start(); int ver = vp_choice(2, 4, "version"); mp3 f; bool had = vp_flag("tag"); chars was = ascii("Old"); if (had) f.tags.push_back(mk_tag(ver, {text_of(ver, "TT2", "TIT2", 0, was)}, vp_flag("room") ? 40 : 0)); f.audio = "aud"; if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); chars t = some_chars(1, vp_choice(0, 2, "length"), "text"); SCM l;
  if (had) { l = read_it(); SCM x = nth(slot(nth(nth(l, 0), 0), "frames"), 0); set(x, "text", S(utf8(t))); vp_cover("changed"); }
  else { SCM x = make("<text-frame>"), g = make("<id3v2-tag>"); set(x, "id", scm_from_utf8_symbol("title-frame")); set(x, "text", S(utf8(t))); set(g, "frames", scm_list_1(x)); l = scm_list_1(list_of({g, scm_from_int(ver)})); vp_cover("made"); }
  write_it(l); found r = look(F); vp_assert(r.tags.size() == 1 && r.tags[0].ver == ver && same(r.rest, f.audio + f.v1), "the file is not as asked for"); vp_assert(r.tags[0].frames.size() == 1 && is(r.tags[0].frames[0], "TT2", "TIT2") && r.tags[0].frames[0].f0 == 0, "the frame is not as asked for"); text_is(r.tags[0].frames[0], t);
}
// how to write
void h_scm_options() {
  start(); int ver = vp_choice(2, 4, "version"); mp3 f; bytes d = "\xff" + any_text(2, "bytes"); f.tags.push_back(mk_tag(ver, {mk("ZZZ", "ZZZZ", ver, d), mk("ZAB", "ZABC", ver, "x")}, vp_flag("room") ? 12 : 0)); f.audio = "aud"; if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); snapshot was; SCM l = read_it(), rest = SCM_EOL; int u = vp_choice(0, 3, "unsync"); bool copy = vp_flag("copy");
  if (copy) rest = list_of({scm_from_utf8_keyword("copy"), SCM_BOOL_T}); if (u) rest = scm_cons(scm_from_utf8_keyword("apply-unsync"), scm_cons(u == 1 ? SCM_BOOL_F : u == 2 ? SCM_BOOL_T : scm_from_utf8_symbol("as-needed"), rest));
  write_it(l, rest); found r = look(F); vp_assert(r.tags.size() == 1 && r.tags[0].ver == ver && same(r.rest, f.audio + f.v1), "the file is not as it was"); const content &c = r.tags[0]; vp_assert(c.frames.size() == 2 && same(c.frames[0].body, d) && same(c.frames[1].body, "x"), "a frame was changed");
  bool sync = (u8)d[1] >= 0xe0, need = sync || d[1] == 0; bool un = c.flags & 0x80; if (ver == 4) un = (c.frames[0].f1 | c.frames[1].f1) & 2; if (u < 2) vp_assert(!un, "unsynchronised without being asked to"); if (u == 2 && need) vp_assert(un, "not unsynchronised"); if (u == 3 && sync && ver < 4) vp_assert(un, "not unsynchronised though needed");
  if (un) { bool ok = true; for (std::size_t i = 0; i + 1 < c.area.size(); ++i) ok &= !((u8)c.area[i] == 0xff && (u8)c.area[i + 1] >= 0xe0); vp_assert(ok, "a false sync is left"); vp_cover("unsynchronised"); }
  if (copy) { was.backed_up(F); vp_cover("backup kept"); } else if (was.added().size()) was.backed_up(F);
}
// what cannot be
void h_scm_refuse() {
  start(); int ver = vp_choice(2, 4, "version"), k = vp_choice(0, 9, "request"); mp3 f; f.tags.push_back(mk_tag(ver, {text_of(ver, "TT2", "TIT2", 0, ascii("Old")), mk("ZAB", "ZABC", ver, "x")}, 12)); f.audio = "aud"; vpfs::put(F, f.all()); snapshot was; SCM l = read_it(), e = nth(l, 0), g = nth(e, 0), x = nth(slot(g, "frames"), 0), y = nth(slot(g, "frames"), 1), rest = SCM_EOL, pth = S(F);
  switch (k) {
  case 0: { int v = vp_choice(0, 7, "as"); if (v >= 2 && v <= 4) v = -1; l = scm_list_1(list_of({g, scm_from_int(v)})); break; }
  case 1: l = scm_list_1(list_of({S("tag"), scm_from_int(ver)})); break;
  case 2: set(g, "frames", scm_list_1(S("frame"))); break;
  case 3: rest = list_of({scm_from_utf8_keyword("apply-unsync"), vp_flag("number") ? scm_from_int(1) : scm_from_utf8_symbol("sometimes")}); break;
  case 4: set(x, "text", scm_from_int(7)); break;
  case 5: set(x, "id", scm_from_utf8_symbol("no-such-frame")); break;
  case 6: set(y, "id-text", S(vp_flag("long") ? "ZZZZZ" : "Z")); break;
  case 7: l = scm_list_1(list_of({g, S("3")})); break;
  case 8: pth = S("/w/none/b.mp3"); break;
  case 9: set(y, "data", scm_c_make_bytevector(vp_choice(0, ver == 2 ? 5 : 9, "bytes"))); break;
  }
  vp_assert(!ok([&] { write_tagset(l, pth, rest); }), "a request that makes no sense is refused"); was.untouched(); vp_assert(was.added().empty(), "files are left behind"); vp_cover("refused");
}
// something fails while at it
void h_scm_fault() {
  start(); mp3 f; f.tags.push_back(mk_tag(3, {text_of(3, "TT2", "TIT2", 0, ascii("Old")), mk("ZAB", "ZABC", 3, "x")}, vp_flag("room") ? 12 : 0)); f.audio = "aud"; if (vp_flag("v1")) f.v1 = mk_v1(9); vpfs::put(F, f.all()); SCM l = read_it(); chars t = ascii("New t"); t[0] = some_chars(0, 1, "text")[0]; set(nth(slot(nth(nth(l, 0), 0), "frames"), 0), "text", S(utf8(t))); bool copy = vp_flag("copy"); snapshot was;
  vpfs::fail_at = vpfs::ops + vp_choice(1, 30, "fault"); vpfs::partial = vp_choice(0, 1, "partial"); bool good = ok([&] { write_tagset(l, S(F), copy ? list_of({scm_from_utf8_keyword("copy"), SCM_BOOL_T}) : SCM_EOL); }); bool hit = vpfs::ops >= vpfs::fail_at; vpfs::fail_at = 0;
  if (!good) { vp_assert(hit, "what was read cannot be written"); vp_cover("fault reported"); return; }
  found r = look(F); vp_assert(r.tags.size() == 1 && r.tags[0].frames.size() == 2 && same(r.rest, f.audio + f.v1), "success is reported though the file is not as asked for"); text_is(r.tags[0].frames[0], t); if (copy) { bool ok = false; for (auto &x : was.added()) ok |= same(vpfs::find(x)->data, was.v[0].data); vp_assert(ok, "success is reported without the backup asked for"); } if (!hit) vp_cover("no fault");
}
// what cannot be read
void h_scm_unread() {
  start(); int k = vp_choice(0, 2, "file"); bytes b = any_text(3, "bytes"); if (k == 1) vpfs::put(F, "aud" + b); if (k == 2) vpfs::put(F, bytes("ID3") + bytes(1, b[0]) + bytes("\0\0\0\0\0\4", 6) + b + "xaud"); snapshot was; SCM l = 0; bool good = ok([&] { l = read_tagset(S(F)); }); was.untouched();
  if (k == 0) { vp_assert(!good, "a missing file is reported"); vp_cover("missing"); } else if (k == 1) { vp_assert(good && length(l) == 0, "a file without tags has none"); vp_cover("none"); } else { if (good) { int v = length(l) ? scm_to_int(nth(nth(l, 0), 1)) : 0; vp_assert(length(l) <= 1 && (v == 0 || v == (u8)b[0]), "the tags of a file"); vp_cover("read"); } else vp_cover("bad"); if (b[0] != 2 && b[0] != 3 && b[0] != 4) vp_assert(!good || length(l) == 0, "an unknown version is not read"); }
}
}
