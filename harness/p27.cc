// P27: readable listings of tags.
#include "tags.hh"
#include <scribbu/pprinter.hh>
#include <scribbu/winamp-genres.hh>
#include <scribbu/scribbu.hh>
#include <iomanip>
using namespace scribbu;
using std::string;
typedef unsigned char u8;
static string num(size_t n) { return std::to_string(n); }
static string hex2(u8 c) { string r; r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; return r; }
static string hexes(const bytes &v) { string r; for (u8 c : v) r += hex2(c); return r; }
static string utf8(const bytes &b) { string r; for (u8 c : b) if (c < 128) r += (char)c; else { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 0x3f)); } return r; }
// texts that are one line each, with no blanks in front or behind
static bytes line(int n, const char *nm, bool beyond = false) { bytes b = any_text(n, nm); for (u8 c : b) vp_assume((c > 32) & (c < 127) | beyond & (c >= 0xa1)); return b; }
template <class T> static string listing(const T &x, int indent, bool expand = false) {
  std::ostringstream os; os << pretty_print(indent, expand, encoding::ISO_8859_1);
  switch (vp_choice(0, 2, "before")) { case 1: os << std::hex << std::setfill('0'); break; case 2: os << std::setfill('*'); break; }     // what printing something else may leave behind
  os << x; string out = os.str(); vp_defined(out.data(), out.size()); vp_assert((bool)os, "printing fails"); return out;
}
static bool differs(const string &a, const string &b) { if (a.size() != b.size()) return true; bool r = false; for (size_t i = 0; i < a.size(); ++i) r |= a[i] != b[i]; return r; }
// the listing is this, every line indented as asked; after any of three states of the stream
template <class T> static void listed(const T &x, const string &want, const char *what, bool expand = false) {
  int n = vp_choice(0, 1, "indent") * 3; string w; if (want.find("\n\n") != string::npos) n = 0;      // blank lines may be indented or not
   bool start = true; for (char c : want) { if (start && c != '\n') w.append(n, ' '); w += c; start = c == '\n'; } vp_assert(!differs(listing(x, n, expand), w), what);
}
// --- frames
static const char *name(int ver, int kind) {
  static const char *n2[] = {"TT2", "UFI", "TXX", "COM", "CNT", "POP", "XTG", "ZZZ", "ZZZ", "ZZZ"}, *n3[] = {"TIT2", "UFID", "TXXX", "COMM", "PCNT", "POPM", "XTAG", "ZZZZ", "ENCR", "PRIV"};
  return ver == 2 ? n2[kind] : n3[kind];
}
// the body of a frame and how it is listed
static bytes body(int ver, int kind, string &want) {
  string id = name(ver, kind); int n = vp_choice(0, 2, "n"); bytes t = line(n, "text", kind == 0 || kind == 3), b = any_text(n, "bytes");
  switch (kind) {
    case 0: want = id + ": " + utf8(t) + "\n"; return nul() + t;
    case 1: vp_assume(n > 0); want = id + ": " + t + "\n" + bytes(id.size() + 2, ' ') + hexes(b) + "\n"; return t + nul() + b;
    case 2: { bool d = vp_flag("which"); want = id + ": " + (d ? t : "d") + "\n" + (d ? "text" : t) + "\n"; return nul() + (d ? t : "d") + nul() + (d ? "text" : t); }
    case 3: { static const struct { const char *raw, *shown; } langs[] = {{"eng", "eng"}, {"zul", "zul"}, {"\xe9\x01z", "0xe9,0x01,0x7a"}, {"qqq", "0x71,0x71,0x71"}}; auto &l = langs[vp_choice(0, 3, "language")]; bool d = vp_flag("which"); string empty(d ? "<no description>" : "<no text>"), s = t.empty() ? empty : utf8(t); want = id + " (" + l.shown + ", " + (d ? s : "d") + "):\n" + (d ? "text" : s) + "\n"; return nul() + bytes(l.raw, 3) + (d ? t : "d") + nul() + (d ? "text" : t); }
    case 4: { u8 c = vp_any<u8>("count"), h = vp_flag("large"); want = id + ": " + num(h * 256u + c) + "\n"; return bytes(2, 0) + (char)h + (char)c; }
    case 5: { u8 c = vp_any<u8>("rating"); vp_assume(n > 0); want = id + ": " + t + "\nrating: " + num(c) + "\ncounter: 0000" + hexes(b) + "\n"; return t + nul() + (char)c + bytes(2, 0) + b; }
    case 6: vp_assume(n > 0); want = id + ": " + t + "\ntags:\nk: v, " + t + "\n"; vp_assume(t[0] > 'v'); return raw_cloud(t, raw_key("k", {"v", t}));
    case 7: want = ver == 2 ? id + ": UNKNOWN\n" : "frame " + id + " (" + num(n + 1) + " bytes)\n"; return b + "x";
    case 8: { u8 c = vp_any<u8>("method"); want = id + ": o\nMethod symbol: " + num(c) + "\nEncryption data: " + hexes(b) + "\n"; return bytes("o") + nul() + (char)c + b; }
    default: { int more = vp_choice(0, 3, "more"); static const int extra[] = {0, 13, 14, 15}; bytes all = b + bytes(extra[more], 'p'), shown = all.substr(0, 16); want = id + " (" + t + "): " + num(all.size()) + " bytes beginning with:\n"; string asc; for (size_t i = 0; i < shown.size(); ++i) { u8 c = shown[i]; want += (i ? " " : "") + hex2(c); asc += (c > 31) & (c < 127) ? (char)c : '.'; } want += "  >" + asc + "<\n"; vp_cover("private"); return t + nul() + all; }
  }
}
template <class T, class F> static void frame(int ver) {
  int kind = vp_choice(0, ver == 2 ? 7 : 9, "kind"); string want; bytes b = body(ver, kind, want); std::istringstream is(raw_tag(ver, raw_frame(ver, name(ver, kind), b), 3)); T t(is); int n = 0;
  for (auto &&x : t) { const F &f = x; listed(f, want, "the listing of a frame"); ++n; } vp_assert(n == 1, "the frame is lost"); vp_cover("frame");
}
extern "C" {
void h_list22() { frame<id3v2_2_tag, id3v2_2_frame>(2); }
void h_list23() { frame<id3v2_3_tag, id3v2_3_frame>(3); }
void h_list24() { frame<id3v2_4_tag, id3v2_4_frame>(4); }
}
// --- whole tags
template <class T> static void tag(int ver) {
  static const char *ids[][2] = {{"TP1", "TPE1"}, {"TT2", "TIT2"}, {"TAL", "TALB"}, {"TYE", "TYER"}, {"TRK", "TRCK"}, {"TCO", "TCON"}, {"TEN", "TENC"}}; bytes v[7]; bool has[7] = {}; bytes frames; string list; int k = vp_choice(0, 8, "frames"); if (ver == 4) vp_assume(k != 3);
  for (int i = 6; i >= 0; --i) if ((k == i || k == 8) && !(ver == 4 && i == 3)) { has[i] = true; v[i] = line(k == 8 ? 1 : 2, "text", k == i); frames += raw_frame(ver, ids[i][ver > 2], nul() + v[i]); list += ids[i][ver > 2]; list += ": " + utf8(v[i]) + "\n"; }
  frames += raw_frame(ver, ver == 2 ? "ZZZ" : "ZZZZ", "abc"); list += ver == 2 ? "ZZZ: UNKNOWN\n" : "frame ZZZZ (3 bytes)\n"; if (ver > 2) { frames += raw_frame(ver, "PRIV", bytes("o") + nul() + "\x05"); list += "PRIV (o): 1 bytes beginning with:\n05  >.<\n"; } frames += raw_frame(ver, ver == 2 ? "CNT" : "PCNT", bytes("\0\0\0\x1f", 4)); list += string(ver == 2 ? "CNT" : "PCNT") + ": 31\n";
  int pad = vp_choice(0, 1, "pad") * 12; bool unsync = vp_flag("unsync"); std::istringstream is(raw_tag(ver, frames, pad, unsync ? 0x80 : 0)); T t(is); auto x = [&](int i, const char *none) { return has[i] ? utf8(v[i]) : string(none); };
  /* the size of ID3v2.4 tags: P03 */ string want = "ID3v2." + num(ver) + "(.0) Tag:\n" + num(ver == 4 ? t.size() : frames.size() + pad) + " bytes, " + (unsync ? "un" : "") + "synchronised\nflags: 0x" + (unsync ? "80" : "00") + "\n" + x(0, "<no artist>") + " - " + x(1, "<no title>") + "\n" + x(2, "<no album>") + (has[4] ? " (track " + utf8(v[4]) + ")" : "") + ", " + x(3, "<no year>") + "\n" + (has[5] ? "Content-type " + utf8(v[5]) + "\n" : "") + (has[6] ? "Encoded by " + utf8(v[6]) + "\n" : "") + list + num(pad) + " bytes of padding\n";
  listed((const id3v2_tag &)t, want, "the listing of a tag"); vp_cover("tag");
}
extern "C" {
void h_listtag22() { tag<id3v2_2_tag>(2); }
void h_listtag23() { tag<id3v2_3_tag>(3); }
void h_listtag24() { tag<id3v2_4_tag>(4); }
void h_listv1() {
  auto f = [](bytes s, size_t n) { s.resize(n, 0); return s; }; int k = vp_choice(0, 4, "field"); bytes s[5] = {"ti", "ar", "al", "1999", "co"}; s[k] = line(vp_choice(1, 2, "n"), "text", true); u8 track = vp_flag("track") ? vp_any<u8>("track") : 0; int genre = vp_choice(0, 2, "genre"); static const u8 genres[] = {17, 254, 0}; u8 g = genres[genre]; bool ext = vp_flag("enhanced"), expand = vp_flag("expand");
  bytes b = "TAG" + f(s[0], 30) + f(s[1], 30) + f(s[2], 30) + f(s[3], 4) + f(s[4], 28) + nul() + (char)track + (char)g, e = "TAG+" + bytes(180, 0) + "\2" + f("gen", 30) + "000:10" + "009:59"; std::istringstream is(ext ? e + b : b); std::unique_ptr<id3v1_tag> t = process_id3v1(is); vp_assert((bool)t, "the tag is not found");
  auto name = text_for_genre(g); string gs = !expand ? "genre " + num(g) : name ? *name : ext ? "unrecognized genre" : "unknown genre " + num(g);
  string want = string("ID3v1") + (track ? ".1" : "") + (ext ? " (enhanced)" : "") + ": " + utf8(s[1]) + " - " + utf8(s[0]) + "\n" + utf8(s[2]) + (track ? " (track " + num(track) + ")" : "") + ", " + utf8(s[3]) + "\n" + utf8(s[4]) + "\n" + (ext ? "gen/" + gs + "\n000:10-009:59: speed 2\n\n" : gs + "\n");
  listed(*t, want, "the listing of an ID3v1 tag", expand); vp_cover("ID3v1 tag"); if (ext) vp_cover("enhanced");
}
}
extern "C" { extern unsigned char vp_md_log[4096]; extern size_t vp_md_len; }
extern "C" void h_listtrack() {
  int n = vp_choice(0, 3, "size"); bytes a = any_text(n, "audio"); vp_assume(n < 3 || a != "TAG"); std::istringstream is(a); track_data d((std::istream &)is); string want = num(n) + " bytes of track data:\nMD5: "; for (int i = 0; i < 16; ++i) want += hex2(u8(n + i)); listed(d, want + "\n", "the listing of the audio"); vp_assert(vp_md_len == (size_t)n && !memcmp(vp_md_log, a.data(), n), "what is digested"); vp_cover("track");
}
