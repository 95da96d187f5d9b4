// P13: URL-encoding and tag-cloud query strings round-trip.
#include "vp.h"
#include <scribbu/scribbu.hh>
#include <scribbu/framesv2.hh>
#include <stdexcept>
using namespace scribbu;
typedef std::map<std::string, std::set<std::string>> cloud;

static bool safe(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~'; }
static int hex(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string text(int lo, int hi, const char *name) { int n = vp_choice(lo, hi, "n"); std::string s(n, '\0'); if (n) vp_sym(&s[0], n, name); return s; }

extern "C" void h_encode() {
  std::string s = text(0, 3, "text"), e = urlencode(s); size_t j = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    vp_assert(j < e.size(), "encoded text too short");
    if ((unsigned char)e[j] == '%') {
      vp_assert(j + 2 < e.size() && hex(e[j + 1]) >= 0 && hex(e[j + 2]) >= 0, "percent sign not followed by two hexadecimal digits");
      vp_assert(hex(e[j + 1]) * 16 + hex(e[j + 2]) == c, "escape denotes another byte"); j += 3; vp_cover("escaped");
    } else { vp_assert(safe(e[j]), "unsafe character left in the encoded text"); vp_assert((unsigned char)e[j] == c, "another character"); ++j; vp_cover("verbatim"); }
  }
  vp_assert(j == e.size(), "encoded text too long");
  vp_assert(urldecode(e) == s, "decode(encode(s)) != s");
}
extern "C" void h_decode() {
  std::string s = text(0, 5, "text"), want; bool good = true, pp = false;
  for (size_t i = 0; i < s.size() && good; ++i)
    if (s[i] != '%') want += s[i];
    else if (i + 1 < s.size() && s[i + 1] == '%') { good = false; pp = true; }   // not specified
    else if (i + 2 < s.size() && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) { want += (char)(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 2; }
    else good = false;
  try {
    std::string d = urldecode(s);
    vp_assert(good || pp, "malformed text decoded");
    if (good) { vp_assert(d == want, "wrong text decoded"); vp_cover("decoded"); }
  } catch (const std::exception &) { vp_assert(!good, "well-formed text refused"); vp_cover("refused"); }
}
static void same(const tag_cloud &t, const cloud &want) {
  size_t n = 0; for (auto i = t.begin(); i != t.end(); ++i, ++n) { auto j = want.find(i->first); vp_assert(j != want.end(), "unexpected key"); vp_assert(i->second == j->second, "values of a key changed"); }
  vp_assert(n == want.size(), "number of keys changed");
}
static cloud any_cloud(int keys, int kl, int vals, int vl) {
  cloud c; int nk = vp_choice(0, keys, "keys");
  for (int i = 0; i < nk; ++i) {
    std::string k = text(1, kl, "key"); std::set<std::string> v; int nv = vp_choice(0, vals, "values");
    for (int j = 0; j < nv; ++j) v.insert(text(0, vl, "value"));
    c[k] = v;
  }
  return c;
}
static void roundtrip(const cloud &c) {
  tag_cloud t("owner", c.begin(), c.end()); std::string q = t.urlencoded();
  for (unsigned char ch : q) vp_assert(safe(ch) || ch == '%' || ch == '=' || ch == '&' || ch == ',', "unsafe character in the query string");
  tag_cloud u("owner", q); same(u, c); vp_cover("cloud"); vp_assert(u.owner() == "owner", "owner changed");
}
extern "C" void h_cloud1() { roundtrip(any_cloud(1, 2, 2, 1)); }
extern "C" void h_cloud2() { roundtrip(any_cloud(2, 1, 1, 1)); }
extern "C" void h_query() {            // arbitrary query strings: parsed as defined or refused
  std::string s = text(0, 4, "query");
  cloud want; bool good = true, first = true; size_t i = 0;
  while (i < s.size() || (!first && i == s.size() && s.size() && s[i - 1] == '&')) {
    size_t e = i; while (e < s.size() && s[e] != '&') ++e;
    size_t q = i; while (q < e && s[q] != '=') ++q;
    bool dup = want.count(s.substr(i, q - i)); auto &v = want[s.substr(i, q - i)];
    if (q < e) for (size_t b = q + 1;;) { size_t c = b; while (c < e && s[c] != ',') ++c; v.insert(s.substr(b, c - b)); if (c >= e) break; b = c + 1; }
    if (dup && q == e) good = false;
    first = false; i = e + 1; if (e >= s.size()) break;
  }
  for (char c : s) vp_assume(c != '%');
  try { tag_cloud t("o", s); vp_assert(good, "query string with a repeated key accepted"); same(t, want); vp_cover("query"); }
  catch (const std::exception &) { vp_assert(!good, "query string refused"); vp_cover("query refused"); }
}
extern "C" void h_edit() {             // adding, merging, replacing
  cloud c = any_cloud(1, 1, 1, 1); tag_cloud t("o", c.begin(), c.end());
  std::string k = text(1, 1, "k"), v = text(0, 1, "v");
  switch (vp_choice(0, 3, "op")) {
  case 0: { bool had = c.count(k); vp_assert(t.add_key(k) == !had, "adding a key"); c[k]; break; }
  case 1: { bool had = c.count(k) && c[k].count(v); vp_assert(t.has_value(k, v) == had, "looking up a value"); vp_assert(t.add_value(k, v) == !had, "adding a value"); c[k].insert(v); break; }
  case 2: t.merge(urlencode(k) + "=" + urlencode(v)); c[k].insert(v); vp_cover("merge"); break;
  case 3: t.update(urlencode(k) + "=" + urlencode(v)); c.clear(); c[k].insert(v); break;
  }
  same(t, c); vp_assert(t.has_key(k), "key not found");
}
