// Stand-in for the regular expressions the commands use: literals, '.', classes, escapes, groups, alternatives and the usual repetitions.
#ifndef VP_SHADOW_REGEX
#define VP_SHADOW_REGEX
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <cstddef>
namespace boost {
  class regex {
    std::string p_;
  public:
    regex() {} explicit regex(const std::string &p): p_(p) {} explicit regex(const char *p): p_(p) {} const std::string &str() const { return p_; } bool empty() const { return p_.empty(); } std::size_t size() const { return p_.size(); }
  };
  struct smatch { std::vector<std::string> v; std::string operator[](std::size_t i) const { return i < v.size() ? v[i] : std::string(); } std::string str(std::size_t i = 0) const { return (*this)[i]; } std::size_t size() const { return v.size(); } bool empty() const { return v.empty(); } };
  struct vp_re {
    const std::string &p, &s; vp_re(const std::string &a, const std::string &b): p(a), s(b) {}
    typedef std::function<bool(std::size_t)> k_t;
    // where the atom at i ends
    std::size_t atom_end(std::size_t i) const {
      if (p[i] == '\\') return i + 2; if (p[i] == '[') { ++i; if (i < p.size() && p[i] == '^') ++i; if (i < p.size() && p[i] == ']') ++i; while (i < p.size() && p[i] != ']') i += p[i] == '\\' ? 2 : 1; return i + 1; }
      if (p[i] == '(') { int d = 0; for (; i < p.size(); ) { if (p[i] == '(') ++d, ++i; else if (p[i] == ')') { ++i; if (!--d) return i; } else i = atom_end(i); } return i; } return i + 1;
    }
    static bool klass(char k, char c) { switch (k) { case 'd': return c >= '0' && c <= '9'; case 'w': return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; case 's': return c == ' ' || (c >= 9 && c <= 13); } return c == k; }
    bool one(std::size_t i, std::size_t e, char c) const {
      if (p[i] == '.') return true; if (p[i] == '\\') return klass(p[i + 1], c); if (p[i] != '[') return p[i] == c;
      std::size_t k = i + 1; bool neg = false, hit = false; if (p[k] == '^') neg = true, ++k;
      for (bool f = true; k < e - 1; f = false) { if (p[k] == '\\') { hit |= klass(p[k + 1], c); k += 2; } else if (k + 2 < e - 1 && p[k + 1] == '-') { hit |= c >= p[k] && c <= p[k + 2]; k += 3; } else { hit |= p[k] == c; ++k; } }
      return hit != neg;
    }
    bool alt(std::size_t i, std::size_t e, std::size_t at, const k_t &k) const { std::size_t j = i; while (j < e && p[j] != '|') j = atom_end(j); if (seq(i, j, at, k)) return true; return j < e && alt(j + 1, e, at, k); }
    bool seq(std::size_t i, std::size_t e, std::size_t at, const k_t &k) const {
      if (i >= e) return k(at); if (p[i] == '^') return at == 0 && seq(i + 1, e, at, k); if (p[i] == '$') return at == s.size() && seq(i + 1, e, at, k);
      std::size_t a = atom_end(i), n = a; std::size_t lo = 1, hi = 1;
      if (n < e) { if (p[n] == '*') lo = 0, hi = -1, ++n; else if (p[n] == '+') hi = -1, ++n; else if (p[n] == '?') lo = 0, ++n; else if (p[n] == '{') { ++n; lo = 0; while (n < e && p[n] >= '0' && p[n] <= '9') lo = lo * 10 + p[n++] - '0'; hi = lo; if (n < e && p[n] == ',') { ++n; hi = -1; if (n < e && p[n] != '}') { hi = 0; while (n < e && p[n] >= '0' && p[n] <= '9') hi = hi * 10 + p[n++] - '0'; } } ++n; } if (n < e && p[n] == '?') ++n; }
      return rep(i, a, n, e, lo, hi, at, k);
    }
    bool rep(std::size_t i, std::size_t a, std::size_t n, std::size_t e, std::size_t lo, std::size_t hi, std::size_t at, const k_t &k) const {
      if (hi) { auto more = [&](std::size_t t) { if (t == at && !lo) return false; return rep(i, a, n, e, lo ? lo - 1 : 0, hi - 1, t, k); };
        if (p[i] == '(') { if (alt(i + 1 + (p[i + 1] == '?' ? 2 : 0), a - 1, at, more)) return true; } else if (at < s.size() && one(i, a, s[at]) && more(at + 1)) return true; }
      return lo == 0 && seq(n, e, at, k);
    }
  };
  inline bool regex_match(const std::string &s, const regex &r) { vp_re m(r.str(), s); return m.alt(0, r.str().size(), 0, [&](std::size_t t) { return t == s.size(); }); }
  inline bool regex_match(const std::string &s, smatch &w, const regex &r) { if (!regex_match(s, r)) { w.v.clear(); return false; } w.v.assign(1, s); return true; }
  inline bool regex_search(const std::string &s, const regex &r) { vp_re m(r.str(), s); for (std::size_t i = 0; i <= s.size(); ++i) if (m.alt(0, r.str().size(), i, [](std::size_t) { return true; })) return true; return false; }
}
#endif
