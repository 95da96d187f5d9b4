// P09: size and integer codecs are exact inverses over their whole range.
#include "vp.h"
#include <scribbu/id3v2.hh>
#include <stdexcept>
using namespace scribbu::detail;

// reference decoder written independently of the library
static uint64_t ref_be(const unsigned char *b, int n) { uint64_t r = 0; for (int i = 0; i < n; ++i) r = r * 256 + b[i]; return r; }
static uint64_t ref_ss(const unsigned char *b, int n) { uint64_t r = 0; for (int i = 0; i < n; ++i) r = r * 128 + b[i] % 128; return r; }

extern "C" void h_syncsafe() {
  uint64_t x = vp_any<uint64_t>("x");
  unsigned char b[6] = {0xaa, 0xaa, 0xaa, 0xaa, 0xaa, 0xaa};
  bool threw = false;
  try { sync_safe_from_unsigned(x, b + 1); } catch (const std::exception &) { threw = true; }
  if (x >= (1ull << 28)) {
    vp_assert(threw, "value outside 28 bits encoded instead of refused"); vp_cover("refused");
    return;
  }
  vp_assert(!threw, "representable value refused");
  vp_cover("encoded");
  for (int i = 1; i < 5; ++i) vp_assert(b[i] < 0x80, "sync-safe byte with top bit set");
  vp_assert(b[0] == 0xaa && b[5] == 0xaa, "encoder wrote outside its four bytes");
  vp_assert(ref_ss(b + 1, 4) == x, "sync-safe bytes do not denote the value");
  vp_assert(unsigned_from_sync_safe(b[1], b[2], b[3], b[4]) == x, "decode(encode(x)) != x");
  vp_assert(uint32_from_sync_safe(b[1], b[2], b[3], b[4]) == x, "decode32(encode(x)) != x");
  vp_observe(b[1]); vp_observe(b[4]);
}
extern "C" void h_decode() {
  unsigned char b[5]; vp_sym(b, 5, "b");
  vp_assert(unsigned_from_non_sync_safe(b[0], b[1], b[2]) == ref_be(b, 3), "3-byte big-endian");
  vp_assert(uint32_from_non_sync_safe(b[0], b[1], b[2]) == ref_be(b, 3), "3-byte big-endian, 32 bit");
  vp_assert(unsigned_from_non_sync_safe(b[0], b[1], b[2], b[3]) == ref_be(b, 4), "4-byte big-endian");
  vp_assert(uint32_from_non_sync_safe(b[0], b[1], b[2], b[3]) == ref_be(b, 4), "4-byte big-endian, 32 bit");
  for (int i = 0; i < 5; ++i) vp_assume(b[i] < 0x80);
  vp_assert(unsigned_from_sync_safe(b[0], b[1], b[2]) == ref_ss(b, 3), "3-byte sync-safe");
  vp_assert(unsigned_from_sync_safe(b[0], b[1], b[2], b[3]) == ref_ss(b, 4), "4-byte sync-safe");
  vp_assert(uint32_from_sync_safe(b[0], b[1], b[2], b[3]) == ref_ss(b, 4), "4-byte sync-safe, 32 bit");
  vp_assume(b[0] < 16);
  vp_assert(unsigned_from_sync_safe(b[0], b[1], b[2], b[3], b[4]) == ref_ss(b, 5), "5-byte sync-safe");
  vp_assert(uint32_from_sync_safe(b[0], b[1], b[2], b[3], b[4]) == ref_ss(b, 5), "5-byte sync-safe, 32 bit");
  vp_cover("decoded");
  vp_observe(unsigned_from_sync_safe(b[0], b[1], b[2], b[3], b[4]));
}
