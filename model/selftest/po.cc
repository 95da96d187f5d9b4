// The same command lines through the real option parser and the stand-in: the output must be the same.
#include <boost/program_options.hpp>
#include <boost/optional.hpp>
#include <cstdio>
#include <iostream>
#include <random>
namespace po = boost::program_options;
struct number { int v; }; std::istream &operator>>(std::istream &is, number &n) { std::string s; is >> s; if (s == "one") n.v = 1; else if (s == "two") n.v = 2; else throw std::invalid_argument(s); return is; } std::ostream &operator<<(std::ostream &os, const number &n) { return os << n.v; }
static void one(const std::vector<std::string> &t, bool any) {
  po::options_description a("a"), b("b"), c("c"), all; a.add_options()("help,h", po::bool_switch(), "x")("info", po::bool_switch(), "x");
  b.add_options()("dry-run,n", po::bool_switch(), "x")("tag,t", po::value<std::vector<std::size_t>>(), "x")("output,o", po::value<std::string>(), "x")("count,c", po::value<unsigned>()->default_value(7), "x")("number,N", po::value<number>()->default_value(number{3}), "x")("adjust,a", po::value<bool>()->implicit_value(true), "x")("create-v1,C", po::bool_switch(), "x")("create-v2", po::bool_switch(), "x")(",v", po::bool_switch(), "x");
  c.add_options()("arguments", po::value<std::vector<std::string>>(), "x"); if (!any) c.add_options()("argument", po::value<std::string>()->required(), "x"); all.add(a).add(b).add(c); po::positional_options_description p; if (any) p.add("arguments", -1); else p.add("argument", 1);
  try {
    po::parsed_options r = po::command_line_parser(t).options(all).positional(p).run(); for (auto &o : r.options) { std::printf("[%s", o.string_key.c_str()); for (auto &v : o.value) std::printf(" <%s>", v.c_str()); std::printf(" /"); for (auto &v : o.original_tokens) std::printf(" <%s>", v.c_str()); std::printf("]"); }
    po::variables_map m; po::store(r, m); po::notify(m); for (auto n : {"help", "info", "dry-run", "create-v1", "create-v2", "-v"}) std::printf(" %s=%d%d", n, (int) m[n].as<bool>(), (int) m[n].defaulted());
    if (m.count("tag")) for (auto x : m["tag"].as<std::vector<std::size_t>>()) std::printf(" tag %zu", x); if (m.count("output")) std::printf(" output %s", m["output"].as<std::string>().c_str()); std::printf(" count %u %d number %d %d", m["count"].as<unsigned>(), (int) m["count"].defaulted(), m["number"].as<number>().v, (int) m["number"].defaulted()); if (m.count("adjust")) std::printf(" adjust %d", (int) m["adjust"].as<bool>()); if (m.count("arguments")) for (auto &x : m["arguments"].as<std::vector<std::string>>()) std::printf(" {%s}", x.c_str()); if (!any) std::printf(" (%s)", m["argument"].as<std::string>().c_str());
  } catch (const po::error &) { std::printf(" usage"); } catch (const std::exception &e) { std::printf(" other"); }
  std::printf("\n");
}
int main(int argc, char **argv) {
  static const char *const w[] = {"a", "b.mp3", "-", "--", "-n", "-h", "--dry-run", "--dry", "--create", "--create-v", "--create-v1", "--create-v1=1", "-t", "-t0", "-t1", "--tag", "--tag=2", "--tag=", "--tag=x", "-o", "-ox", "--output", "--output=a=b", "--outp", "-c", "-c3", "--count=-1", "--count=4x", "--count", "12", "-a", "--adjust", "--adjust=no", "--adjust=maybe", "-N", "--number=one", "--number=six", "two", "-nh", "-hnt4", "-nc5", "-x", "--nosuch", "--nosuch=1", "-nx", "-no", "", " ", "-v", "-nv", "--argument", "--argument=q", "--arguments=q", "-vC", "---", "--=x", "-=", "-C=1", "-c=3", "--in", "--h", "off"};
  const int W = sizeof w / sizeof *w; for (int any = 0; any < 2; ++any) { one({}, any); for (int i = 0; i < W; ++i) { one({w[i]}, any); for (int j = 0; j < W; ++j) one({w[i], w[j]}, any); } }
  std::mt19937 g(1); for (int k = 0; k < 60000; ++k) { std::vector<std::string> t(3 + g() % 3); for (auto &x : t) x = w[g() % W]; one(t, k & 1); }
}
