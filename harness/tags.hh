// Raw ID3v2 tags put together by the harnesses.
#ifndef VP_TAGS_HH
#define VP_TAGS_HH
#include "vp.h"
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <sstream>
#include <cstring>
#include <string>
#include <vector>
typedef std::string bytes;
static inline bytes be(unsigned n, int k) { bytes r; while (k--) r += (char)(n >> (8 * k)); return r; }
static inline bytes ss(unsigned n) { bytes r; for (int k = 3; k >= 0; --k) r += (char)(n >> (7 * k) & 127); return r; }
static inline bytes raw_frame(int ver, const bytes &id, const bytes &body, unsigned char f0 = 0, unsigned char f1 = 0) {
  if (ver == 2) return id + be(body.size(), 3) + body;
  bytes r = id + (ver == 3 ? be(body.size(), 4) : ss(body.size())); r += (char)f0; r += (char)f1; return r + body;
}
static inline bytes raw_tag(int ver, const bytes &frames, int pad = 0, unsigned char flags = 0) {
  bytes r("ID3"); r += (char)ver; r += (char)0; r += (char)flags; return r + ss(frames.size() + pad) + frames + bytes(pad, 0);
}
static inline bytes any_text(int n, const char *name) { bytes r(n, 0); if (n) vp_sym(&r[0], n, name); return r; }
static inline bytes nul(bool wide = false) { return bytes(wide ? 2 : 1, 0); }
// a tag cloud: version, owner, then each key with the size of its values and the values
static inline bytes raw_key(const bytes &key, const std::vector<bytes> &values) { bytes v; for (auto &x : values) v += x + nul(); return key + nul() + be(v.size(), 4) + v; }
static inline bytes raw_cloud(const bytes &owner, const bytes &keys) { return bytes(1, 1) + owner + nul() + keys; }
#endif
