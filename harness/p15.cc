// P15: MP3 frame headers and VBR headers are decoded exactly and safely.
#include "vp.h"
#include <scribbu/mp3.hh>
#include <sstream>
#include <cstring>
using namespace scribbu;

// MPEG tables (ISO 11172-3 / 13818-3 Layer III), kbit/s by bit-rate index
static const int rate1[16] = {0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0};
static const int rate2[16] = {0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0};
static const int srate1[3] = {44100, 48000, 32000};
struct ref { bool ok; int ver, bps, hz, size, side; bool crc; };
static ref decode(const unsigned char *h) {
  ref r{}; int v = h[1] >> 3 & 3, layer = h[1] >> 1 & 3, bi = h[2] >> 4, si = h[2] >> 2 & 3;
  r.ok = h[0] == 0xff && h[1] >= 0xe0 && v != 1 && layer == 1 && bi != 0 && bi != 15 && si != 3;
  if (!r.ok) return r;
  r.ver = v == 3 ? 1 : v == 2 ? 2 : 25;
  r.bps = 1000 * (r.ver == 1 ? rate1[bi] : rate2[bi]);
  r.hz = srate1[si] / (r.ver == 1 ? 1 : r.ver == 2 ? 2 : 4);
  r.size = (r.ver == 1 ? 144 : 72) * r.bps / r.hz + (h[2] >> 1 & 1);
  bool mono = (h[3] >> 6) == 3; r.side = r.ver == 1 ? (mono ? 17 : 32) : (mono ? 9 : 17);
  r.crc = !(h[1] & 1); return r;
}
static void split(unsigned char *h) {     // one path per bit-rate/sample-rate/version combination
  h[2] = (unsigned char)((vp_conc(h[2] >> 2) << 2) | (h[2] & 3));
  h[1] = (unsigned char)vp_conc(h[1]);
}
extern "C" void h_header() {
  unsigned char h[4]; vp_sym(h, 4, "header"); 
  if (h[0] == 0xff && h[1] >= 0xe0) split(h);
  bool how = vp_flag("how"); ref r = decode(h);
  std::string s(1500, '\0'); if (how) memcpy(&s[0], h, 4);
  std::istringstream is(s); if (!how) is.seekg(4);
  bool threw = false;
  try {
    mp3_audio_frame f = how ? mp3_audio_frame(is) : mp3_audio_frame(h, is);
    vp_assert(r.ok, "reserved value or missing sync accepted");
    vp_cover("accepted");
    vp_assert(f.version() == (r.ver == 1 ? mp3_audio_frame::mpeg_version::mpeg_audio_version_1 : r.ver == 2 ? mp3_audio_frame::mpeg_version::mpeg_audio_version_2 : mp3_audio_frame::mpeg_version::mpeg_audio_version_2_5), "MPEG version");
    vp_assert((int)f.bps() == r.bps, "bit rate"); vp_assert((int)f.sample_rate_hz() == r.hz, "sample rate");
    vp_assert((int)f.size() == r.size, "frame length");
    vp_assert(f.duration().first == (r.ver == 1 ? 1152u : 576u) && (int)f.duration().second == r.hz, "frame duration");
    vp_assert(!f.vbri(), "VBR information out of nowhere");
    vp_assert(is.tellg() == std::streampos(r.size), "stream not at the next frame");
  } catch (const std::exception &) { threw = true; vp_cover("refused"); }
  vp_assert(threw == !r.ok, "valid header refused");
}
static void be(std::string &s, uint32_t v, int n) { for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); }
static std::string put(const unsigned char *h, const ref &r, int at, const std::string &tag, int total) {
  std::string s((const char *)h, 4); s.resize(total, '\0'); memcpy(&s[at], tag.data(), tag.size()); return s;
}
// the four kinds of frame layout, CRC or not
static void pick_header(unsigned char *h) {
  h[0] = 0xff; h[1] = (vp_flag("mpeg1") ? 0xfa : 0xf2) | (vp_flag("nocrc") ? 1 : 0); h[2] = 0x90; h[3] = vp_flag("mono") ? 0xc0 : 0;
}
extern "C" void h_vbri() {
  unsigned char h[4]; pick_header(h); ref r = decode(h);
  unsigned char b[22]; vp_sym(b, 22, "vbri");
  b[14] = 0; vp_assume(b[15] <= 2); b[18] = 0; vp_assume(b[19] <= 2);   // bound: at most two entries of at most two bytes
  std::string s = put(h, r, 36, std::string("VBRI") + std::string((char *)b, 22), 417);
  std::istringstream is(s); is.seekg(4);
  mp3_audio_frame f(h, is, true);
  auto v = f.vbri(); vp_assert(v.has_value(), "VBRI header not found"); vp_cover("VBRI");
  uint32_t bytes = (uint32_t)b[6] << 24 | b[7] << 16 | b[8] << 8 | b[9], frames = (uint32_t)b[10] << 24 | b[11] << 16 | b[12] << 8 | b[13];
  vp_assert(v->first == frames, "number of frames in the VBRI header"); vp_assert(v->second == bytes, "number of bytes in the VBRI header");
  vp_assert(is.tellg() == std::streampos(r.size), "stream not at the next frame");
}
extern "C" void h_xing() {
  unsigned char h[4]; pick_header(h); ref r = decode(h);
  unsigned char fl; vp_sym(&fl, 1, "flags"); fl = (unsigned char)vp_conc(fl & 0x0f);
  uint32_t frames = vp_any<uint32_t>("frames"), bytes = vp_any<uint32_t>("bytes");
  std::string t = vp_flag("info") ? "Info" : "Xing"; be(t, fl, 4); if (fl & 1) be(t, frames, 4); if (fl & 2) be(t, bytes, 4); if (fl & 4) t += std::string(100, 't'); if (fl & 8) be(t, 77, 4);
  unsigned char l[4]; vp_sym(l, 4, "lame"); t += std::string((char *)l, 4); t += std::string(32, 'q');
  bool early = r.crc && vp_flag("early");   // some encoders claim a CRC but omit it
  std::string s = put(h, r, 4 + (r.crc && !early ? 2 : 0) + r.side, t, 417);
  std::istringstream is(s); is.seekg(4);
  mp3_audio_frame f(h, is, true);
  auto v = f.vbri();
  vp_assert(v.has_value() == ((fl & 3) == 3), "frame and byte counts known exactly when both are present");
  if (v) { vp_cover("Xing"); vp_assert(v->first == frames, "number of frames in the Xing header"); vp_assert(v->second == bytes, "number of bytes in the Xing header"); }
  vp_assert(is.tellg() == std::streampos(r.size), "stream not at the next frame");
}
// truncated anywhere: no crash, no uninitialised data
extern "C" void h_trunc() {
  unsigned char h[4] = {0xff, 0xfb, 0x90, 0}; ref r = decode(h); int kind = vp_choice(0, 2, "kind"), n = vp_choice(0, 34, "len");
  std::string t = kind == 0 ? "VBRI" : "Xing";
  if (kind == 0) { be(t, 0x000106f1, 4); be(t, 0x0032, 2); be(t, 1000, 4); be(t, 10, 4); be(t, 1, 2); be(t, 1, 2); be(t, 2, 2); be(t, 1, 2); be(t, 9, 2); }
  else { be(t, kind == 1 ? 0x3 : 0xb, 4); be(t, 10, 4); be(t, 1000, 4); t += "LAME3.99r"; t += std::string(12, 'q'); }
  std::string s = put(h, r, 36, t, 36 + t.size()); s.resize(36 + (n < (int)t.size() ? n : t.size()));
  std::istringstream is(s); 
  try {
    double d = get_mp3_duration(is); vp_defined(&d, sizeof d); vp_cover("short");
  } catch (const std::exception &) { }
}
// scanning arbitrary bytes
extern "C" void h_scan() {
  unsigned char b[8]; int n = vp_choice(0, 8, "len"), at = vp_choice(0, 1, "at"); vp_assume(at <= n); vp_sym(b, n, "bytes");
  std::istringstream is(std::string((char *)b, n)); is.seekg(at); is.exceptions(vp_flag("mask") ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::goodbit); auto m = is.exceptions();
  int want = -1; for (int i = at; i + 1 < n && want < 0; ++i) if (b[i] == 0xff && b[i + 1] >= 0xe0) want = i;
  bool threw = false;
  try { find_sync(is); } catch (const std::exception &) { threw = true; }
  if (want >= 0) { vp_cover("sync found"); vp_assert(!threw && is.good() && is.tellg() == std::streampos(want), "scan did not stop at the first frame sync"); vp_assert(is.exceptions() == m, "exception settings changed"); }
  else { vp_assert(threw || !is, "scan reports a sync that is not there"); vp_cover("no sync"); }
}
extern "C" void h_duration() {           // whole frames followed by anything
  unsigned char h[4] = {0xff, 0xf3, 0x10, 0xc0}; bool pad = vp_flag("pad"); if (pad) h[2] |= 2; h[2] |= vp_flag("24k") ? 4 : 0;
  ref r = decode(h);                      // 8 kbit/s: the shortest frames there are
  int k = vp_choice(0, 3, "frames"), junk = vp_choice(0, 4, "junk"), lead = vp_choice(0, 2, "lead"); unsigned char j[4]; vp_sym(j, junk, "junk bytes");
  std::string s(lead, 'y'); for (int i = 0; i < k; ++i) { std::string f((char *)h, 4); f.resize(r.size, '\0'); s += f; }
  s += std::string((char *)j, junk);
  if (junk == 4 || (junk >= 2 && k == 0)) vp_assume(!(j[0] == 0xff && j[1] >= 0xe0));
  if (k == 0) for (int i = 0; i + 1 < junk; ++i) vp_assume(!(j[i] == 0xff && j[i + 1] >= 0xe0));
  std::istringstream is(s); double d = get_mp3_duration(is); vp_cover("duration");
  double want = k == 0 ? 0.0 : 576.0 * k / r.hz;
  vp_assert(d == want, "duration is not the number of frames times the frame duration");
}
extern "C" void h_any() {                // arbitrary bytes: ends, no bad access
  unsigned char b[6]; int n = vp_choice(0, 6, "len"); vp_sym(b, n, "bytes"); std::string s((char *)b, n); s += std::string(60, '\0');
  std::istringstream is(s);
  try { double d = get_mp3_duration(is); vp_defined(&d, sizeof d); vp_cover("any"); vp_assert(is.exceptions() == std::ios_base::goodbit, "exception settings changed"); } catch (const std::exception &) { vp_cover("any refused"); }
}
