// The same texts through the real regular expressions and the stand-in: the output must be the same.
#include <boost/regex.hpp>
#include <cstdio>
#include <string>
int main() {
  static const char *const pats[] = {"1|csv", "2|standard|std", "3|json", "a*", "(a|b)+c?", "[ab]*b", "[^a]b?", "a.b", "(ab)*", "\\.a", "a+b*", "(a)(b)?c", "[a-c]+", ".*b", "a|b|", "((a|b)c)*"};
  std::string al = "abc."; for (auto p : pats) { boost::regex r(p); for (int n = 0; n < 6; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 4; for (int k = 0; k < t; ++k) { std::string s; for (int i = 0, q = k; i < n; ++i, q /= 4) s += al[q % 4]; std::printf("%s %s %d\n", p, s.c_str(), (int) boost::regex_match(s, r)); } } for (auto s : {"1", "csv", "2", "standard", "std", "3", "json", "jsonx", "xcsv"}) std::printf("%s %s %d\n", p, s, (int) boost::regex_match(std::string(s), r)); }
}
