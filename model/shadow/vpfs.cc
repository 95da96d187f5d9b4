#include "vpfs.hh"
#include <vector>
#include <memory>
#include <cstring>
namespace vpfs {
  int fail_at, stop_at, partial, ops, changes; bool cross_device, stopped;
  static std::vector<std::unique_ptr<node>> *all;
  static std::vector<std::unique_ptr<node>> &tab() { if (!all) { all = new std::vector<std::unique_ptr<node>>; for (const char *d : {"/", "/tmp", "/w", "/w/sub"}) all->push_back(std::unique_ptr<node>(new node{d, "", true})); } return *all; }
  void reset() { fail_at = stop_at = partial = ops = changes = 0; cross_device = stopped = false; }
  std::string abs(const std::string &n) {
    std::string s = n.size() && n[0] == '/' ? n : "/w/" + n, r;
    for (size_t i = 0; i < s.size(); ) {      // drop empty and "." parts, resolve ".."
      while (i < s.size() && s[i] == '/') ++i; size_t j = i; while (j < s.size() && s[j] != '/') ++j; std::string p(s, i, j - i); i = j;
      if (p.empty() || p == ".") continue; if (p == "..") { size_t k = r.rfind('/'); r.erase(k == std::string::npos ? 0 : k); continue; } r += '/'; r += p;
    }
    return r.empty() ? "/" : r;
  }
  node *find(const std::string &name) { std::string a = abs(name); for (auto &p : tab()) if (p->name == a) return p.get(); return 0; }
  void put(const std::string &name, const std::string &data) { node *p = find(name); if (p) p->data = data; else tab().push_back(std::unique_ptr<node>(new node{abs(name), data, false})); }
  size_t count() { return tab().size(); } node *at(size_t i) { return tab()[i].get(); }
  static bool now_failing;
  bool step(bool changing, int err) {
    now_failing = false; if (stopped) { errno = EIO; return false; }
    ++ops; if (changing) ++changes;
    if (ops == fail_at) { now_failing = true; errno = err; return false; }
    if (changing && changes == stop_at) { now_failing = true; stopped = true; errno = EIO; return false; }
    return true;
  }
  static size_t part(size_t n) { return !now_failing || partial == 0 ? 0 : partial == 1 ? n / 2 : n; }
  static std::string dir_of(const std::string &a) { size_t k = a.rfind('/'); return k ? a.substr(0, k) : "/"; }
  int lookup(const std::string &name, bool *there, bool *dir, size_t *size) { if (!step(false, EACCES)) return errno; node *p = find(name); *there = p; *dir = p && p->dir; *size = p ? p->data.size() : 0; return 0; }
  int create(const std::string &name, bool trunc) {
    node *p = find(name); bool ch = !p || (trunc && p->data.size());
    if (!step(ch, EACCES)) return errno;
    if (p && p->dir) return EISDIR; if (p) { if (trunc) p->data.clear(); return 0; }
    node *d = find(dir_of(abs(name))); if (!d || !d->dir) return ENOENT; put(name, ""); return 0;
  }
  static void blit(node *p, size_t off, const char *s, size_t n) { if (p->data.size() < off + n) p->data.resize(off + n, 0); for (size_t i = 0; i < n; ++i) p->data[off + i] = s[i]; }
  int write(const std::string &name, size_t off, const char *s, size_t n, size_t *done) {
    *done = 0; node *p = find(name); if (!p) return EBADF; if (off == (size_t)-1) off = p->data.size();
    bool ok = step(true, ENOSPC); size_t k = ok ? n : part(n); if (k) blit(p, off, s, k); *done = k; return ok ? 0 : errno;
  }
  size_t store(const std::string &name, size_t off, const char *s, size_t n) {
    node *p = find(name); if (!p || stopped) return 0; size_t k = n;
    if (++changes == stop_at) { stopped = true; now_failing = true; k = part(n); } if (k) blit(p, off, s, k); return n;
  }
  int read_at(const std::string &name, size_t off, char *s, size_t n, size_t *done) {
    *done = 0; if (!step(false, EIO)) return errno; node *p = find(name); if (!p) return EBADF;
    if (off < p->data.size()) { size_t k = p->data.size() - off; if (k > n) k = n; memcpy(s, p->data.data() + off, k); *done = k; } return 0;
  }
  int remove(const std::string &name, bool *was) {
    std::string a = abs(name); *was = false; node *p = find(a); if (!step(p, EACCES)) return errno; if (!p) return 0;
    for (size_t i = 0; i < tab().size(); ++i) if (tab()[i].get() == p) { tab().erase(tab().begin() + i); break; } *was = true; return 0;
  }
  int rename(const std::string &a, const std::string &b) {
    node *p = find(a), *q = find(b); if (p && cross_device && dir_of(abs(a)) != dir_of(abs(b))) { if (!step(false, EXDEV)) return errno; return EXDEV; }
    if (!step(p, EACCES)) return errno; if (!p) return ENOENT; if (p == q) return 0; std::string nb = abs(b);
    if (q) for (size_t i = 0; i < tab().size(); ++i) if (tab()[i].get() == q) { tab().erase(tab().begin() + i); break; } p->name = nb; return 0;
  }
  int resize(const std::string &name, size_t n) { node *p = find(name); if (!step(p, EACCES)) return errno; if (!p) return ENOENT; p->data.resize(n, 0); return 0; }
  int copy_data(const std::string &a, const std::string &b, bool fail_if_exists, bool overwrite, bool *copied) {
    *copied = false; if (!step(false, EACCES)) return errno; node *p = find(a); if (!p) return ENOENT; if (p->dir) return EISDIR;
    node *q = find(b); if (q) { if (p == q) return EEXIST; if (!overwrite) return fail_if_exists ? EEXIST : 0; }
    int e = create(b, true); if (e) return e; size_t done; std::string d = p->data; if (d.size()) { e = write(b, 0, d.data(), d.size(), &done); if (e) return e; } *copied = true; return 0;
  }
}
