// P18: probing a stream for tags leaves the stream as it was found.
#include "tags.hh"
#include <scribbu/id3v2-utils.hh>
#include <scribbu/scribbu.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2.hh>
#include <scribbu/id3v2-utils.hh>
#include <sstream>
#include <cstring>
#include <memory>
using namespace scribbu;
extern "C" { extern unsigned char vp_md_log[]; extern size_t vp_md_len; extern int vp_md_fail; }
using ios = std::ios_base;

static const ios::iostate masks[] = {ios::goodbit, ios::badbit, ios::failbit | ios::badbit, ios::eofbit | ios::failbit | ios::badbit};
static ios::iostate pick_mask() { return masks[vp_choice(0, 3, "mask")]; }
static void unchanged(std::istream &is, ios::iostate mask, std::streamoff pos) {
  vp_assert(is.exceptions() == mask, "exception settings changed");
  vp_assert(is.rdstate() == ios::goodbit, "error state changed");
  vp_assert(is.tellg() == std::streampos(pos), "read position changed");
}
extern "C" void h_look_v2() {
  unsigned char b[13]; int n = vp_choice(0, 13, "len"), at = vp_choice(0, 2, "at"); vp_assume(at <= n);
  vp_sym(b, n, "bytes"); bool restore = vp_flag("restore");
  std::istringstream is(std::string((char *)b, n)); is.seekg(at); ios::iostate m = pick_mask(); is.exceptions(m);
  id3v2_info I = looking_at_id3v2(is, restore);
  const unsigned char *p = b + at;
  bool want = n - at >= 10 && p[0] == 'I' && p[1] == 'D' && p[2] == '3' && p[3] != 0xff && p[4] != 0xff && p[6] < 0x80 && p[7] < 0x80 && p[8] < 0x80 && p[9] < 0x80;
  vp_assert(I.present_ == want, "presence of an ID3v2 tag misreported");
  if (want) {
    vp_cover("v2 present");
    vp_assert(I.version_ == p[3] && I.revision_ == p[4] && I.flags_ == p[5], "ID3v2 header fields");
    uint32_t size = (uint32_t)p[6] << 21 | p[7] << 14 | p[8] << 7 | p[9]; if (p[3] == 4 && (p[5] & 0x10)) size += 10;   // a footer is part of the tag
    vp_assert(I.size_ == size, "ID3v2 size");
  } else vp_cover("v2 absent");
  unchanged(is, m, want && !restore ? at + 10 : at);
}
// streams of interesting lengths; only the places where an ID3v1 tag could start are arbitrary
static const int lens[] = {0, 1, 3, 127, 128, 129, 131, 354, 355, 356, 358};
struct v1stream { std::string s; int n; bool ext, std_, found; int start; };
static v1stream v1() {
  v1stream v; v.n = lens[vp_choice(0, 10, "len")]; v.s.assign(v.n, 'x');
  unsigned char a[4], b[4]; vp_sym(a, 4, "ext"); vp_sym(b, 4, "std");
  if (v.n >= 355) for (int i = 0; i < 4; ++i) v.s[v.n - 355 + i] = a[i];
  if (v.n >= 128) for (int i = 0; i < 4; ++i) v.s[v.n - 128 + i] = b[i];
  v.std_ = v.n >= 128 && b[0] == 'T' && b[1] == 'A' && b[2] == 'G';
  v.ext = v.std_ && v.n >= 355 && a[0] == 'T' && a[1] == 'A' && a[2] == 'G' && a[3] == '+';
  v.found = v.std_; v.start = v.ext ? v.n - 355 : v.std_ ? v.n - 128 : v.n;
  return v;
}
extern "C" void h_ends_in_v1() {
  v1stream v = v1(); int at = vp_choice(0, 2, "at"); at = at == 2 ? v.n : at < v.n ? at : 0;
  std::istringstream is(v.s); is.seekg(at); ios::iostate m = pick_mask(); is.exceptions(m);
  id3v1_info I = ends_in_id3v1(is);
  vp_assert((I.type_ == id3_v1_tag_type::v_1_extended) == v.ext, "extended ID3v1 tag misreported");
  vp_assert((I.type_ == id3_v1_tag_type::v_1) == (v.std_ && !v.ext), "ID3v1 tag misreported");
  if (v.found) {
    if (v.ext) { vp_cover("extended"); } else vp_cover("standard");
    vp_assert(I.start_ == std::streampos(v.start) && I.end_ == std::streampos(v.n), "ID3v1 tag position");
  } else vp_cover("v1 absent");
  unchanged(is, m, at);
}
extern "C" void h_process_v1() {
  v1stream v = v1(); int at = vp_choice(0, 2, "at"); at = at == 2 ? v.n : at < v.n ? at : 0;
  std::istringstream is(v.s); is.seekg(at); ios::iostate m = pick_mask(); is.exceptions(m);
  std::unique_ptr<id3v1_tag> p = process_id3v1(is);
  vp_assert((p != nullptr) == v.found, "ID3v1 tag read exactly when there is one");
  if (p) { vp_cover("v1 read"); vp_assert((int)p->size() == v.n - v.start && p->extended() == v.ext, "size of the ID3v1 tag"); }
  unchanged(is, m, at);
}
extern "C" void h_find_v1() {
  v1stream v = v1(); int at = vp_choice(0, 3, "at"); at = at == 3 ? v.n : at == 2 ? (v.n > 4 ? v.n - 4 : 0) : at < v.n ? at : 0;
  std::istringstream is(v.s); is.seekg(at); ios::iostate m = pick_mask(); is.exceptions(m);
  std::streampos here, there; std::tie(here, there) = find_id3v1_tag(is);
  vp_assert(here == std::streampos(at), "start of the track data");
  if (v.ext && v.start < at && v.n - 128 >= at) return;     // starts inside the extension: either reading will do
  int want = v.start >= at ? v.start : v.n;                  // a tag lies after the start position
  vp_assert(there == std::streampos(want), "end of the track data");
  vp_assert(is.exceptions() == m && is.rdstate() == ios::goodbit, "exception settings or error state changed");
  if (want < v.n) vp_cover("track ends at a tag");
}
extern "C" void h_ctor_v1() {            // constructing from a stream: on failure everything as before
  unsigned char b[4]; vp_sym(b, 4, "head"); bool ext = vp_flag("ext"); int n = ext ? 355 : 128, cut = vp_choice(0, 1, "cut");
  std::string s(n + 1 - cut, 'x'); if (n + 1 - cut > 5) memcpy(&s[1], b, 4); if (ext) memcpy(&s[228], "TAG", 3);
  std::istringstream is(s); is.seekg(1); ios::iostate m = pick_mask(); is.exceptions(m);
  bool threw = false, how = vp_flag("how");
  try { if (how) id3v1_tag t(is, ext); else id3v1_tag t(is); } catch (const std::exception &) { threw = true; }
  vp_assert(is.exceptions() == m, "exception settings changed");
  if (threw) { vp_cover("v1 refused"); vp_assert(is.rdstate() == ios::goodbit && is.tellg() == std::streampos(1), "stream not restored after a refused tag"); }
  else vp_cover("v1 accepted");
}
extern "C" void h_track() {              // the track is what lies between the start position and the ID3v1 tag
  int na = vp_choice(0, 5, "audio"), at = vp_choice(0, 1, "at"); bool tag = vp_flag("tag");
  unsigned char a[6]; vp_sym(a, na, "audio bytes");
  std::string s(at, 'y'); s += std::string((char *)a, na); if (tag) { s += "TAG"; s += std::string(125, 'z'); }
  std::istringstream is(s); is.seekg(at); ios::iostate m = pick_mask(); is.exceptions(m);
  vp_md_fail = vp_choice(0, 3, "digest-fails");
  bool threw = false, other = false; 
  try {
    track_data t(is);
    vp_assert((int)t.size() == na, "track size");
    vp_assert(is.exceptions() == m && is.rdstate() == ios::goodbit, "exception settings or error state changed");
    vp_assert(is.tellg() == std::streampos(at + na), "stream not positioned after the track data");
    vp_cover("track");
    vp_assert((int)vp_md_len == na, "digest does not cover the track");
    for (int i = 0; i < na; ++i) vp_assert(vp_md_log[i] == a[i], "digest of other bytes");
    if (!t.duration()) vp_cover("no duration");
  } catch (const std::exception &) { threw = true; } catch (...) { other = true; }
  vp_assert(!other, "failure not reported as an exception object");
  vp_assert(threw == (vp_md_fail == 1 || vp_md_fail == 2 || (vp_md_fail == 3 && na > 0)), "digest failure not reported");
}
extern "C" void h_maybe_v2() {           // no tag: nil and nothing moved; tag: positioned right behind it
  unsigned char b[22]; memset(b, 0, sizeof b); vp_sym(b, 6, "head"); int body = vp_choice(0, 2, "body") * 4, rest = vp_choice(0, 1, "rest");
  if (b[3] == 2 || b[3] == 3 || b[3] == 4) b[5] = 0;
  b[9] = body; std::istringstream is(std::string((char *)b, 10 + body + rest)); ios::iostate m = pick_mask(); is.exceptions(m);
  bool present = b[0] == 'I' && b[1] == 'D' && b[2] == '3' && b[3] != 0xff && b[4] != 0xff;
  std::unique_ptr<id3v2_tag> p; bool threw = false;
  try { p = maybe_read_id3v2(is); } catch (const std::exception &) { threw = true; }
  vp_assert(threw == (present && (b[3] < 2 || b[3] > 4)), "unknown versions, and only they, are refused");
  if (threw) { vp_cover("unknown version"); return; }
  vp_assert((p != nullptr) == present, "tag returned exactly when there is one");
  vp_assert(is.exceptions() == m && is.rdstate() == ios::goodbit, "exception settings or error state changed");
  vp_assert(is.tellg() == std::streampos(present ? 10 + body : 0), "stream not positioned right after the tag");
  if (p) { vp_cover("v2 read"); vp_assert((int)p->padding() == body && p->num_frames() == 0, "padding"); }
}

// several tags one after another
extern "C" void h_indexed() {
  std::string b; std::size_t ends[3] = {0, 0, 0}; int vers[3], n = vp_choice(0, 2, "tags");
  for (int i = 0; i < n; ++i) {
    int v = vers[i] = vp_choice(2, 4, "version"); bool foot = v == 4 && vp_flag("footer"); bytes body(1, 0); vp_sym(&body[0], 1, "text");
    bytes t = raw_tag(v, raw_frame(v, v == 2 ? "TT2" : "TIT2", nul() + body), foot ? 0 : vp_choice(0, 1, "padding"), foot ? 0x10 : 0);
    if (foot) t += "3DI" + t.substr(3, 7);
    b += t; ends[i + 1] = b.size();
  }
  b += "xy"; std::istringstream is(b); int idx = vp_choice(0, 2, "index");
  if (vp_flag("all")) {
    std::vector<std::unique_ptr<id3v2_tag>> v; read_all_id3v2(is, std::back_inserter(v));
    vp_assert((int)v.size() == n, "every tag is read"); for (int i = 0; i < n; ++i) vp_assert(v[i]->version() == vers[i], "tags are read in order");
    vp_assert((std::size_t)is.tellg() == ends[n], "the stream is left where the tags end"); vp_cover("all tags read"); return;
  }
  bool threw = false;
  try { auto t = read_id3v2(is, idx); vp_assert(t && t->version() == vers[idx] && t->num_frames() == 1, "the tag asked for is read"); vp_assert((std::size_t)is.tellg() == ends[idx + 1], "the stream is left where the tag ends"); vp_cover("tag found by index"); }
  catch (const std::invalid_argument &) { threw = true; vp_cover("no such tag"); }
  vp_assert(threw == (idx >= n), "a tag that is not there is reported");
}
