// Tags mirrored by a list of what they should hold, for the harnesses of P06 and P07.
#ifndef VP_ITEMS_HH
#define VP_ITEMS_HH
#include "edit.hh"
enum kind { TITLE, COMMENT, COUNT, RATING, OTHER, USERTEXT, KINDS };
// a frame the tag should hold: its kind and its contents, an arbitrary character. Comparisons do not branch on contents,
// so that one assertion speaks of all contents, equal ones among them.
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
struct item { int kind; std::string val; bool operator==(const item &o) const { return kind == o.kind ? same(val, o.val) : false; } };
typedef std::vector<item> items;
static bool same(const items &a, const items &b) { if (a.size() != b.size()) return false; bool r = true; for (std::size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static item fresh(int k) { item i{k, word(1, "val")}; if (k == COUNT || k == RATING) vp_assume(i.val[0] >= 64); return i; }
static unsigned num(const item &i) { return (u8)i.val[0]; }
template <class V> static item seen(const typename V::base &f) {
  if (auto p = dynamic_cast<const typename V::text *>(&f)) { vp_assert(f.id() == typename V::id(V::title()), "identifier of a text frame"); return item{TITLE, p->template as_str<std::string>()}; }
  if (auto p = dynamic_cast<const typename V::comment *>(&f)) return item{COMMENT, p->template text<std::string>()};
  if (auto p = dynamic_cast<const typename V::usertext *>(&f)) return item{USERTEXT, p->template text<std::string>()};
  auto two = [](std::size_t n) { vp_assert(n < 256, "a counter is too big"); return std::string(1, (char)n); };
  if (auto p = dynamic_cast<const typename V::count *>(&f)) return item{COUNT, two(p->count())};
  if (auto p = dynamic_cast<const typename V::rating *>(&f)) return item{RATING, two(p->count())};
  auto p = dynamic_cast<const typename V::other *>(&f); vp_assert(p, "a frame of unexpected kind"); item i{OTHER, ""}; p->data(std::back_inserter(i.val)); return i;
}
// give the frame an item stands for to fn
template <class V, class F> static void with(const item &i, F fn) {
  switch (i.kind) {
  case TITLE: fn(V::mk_text(V::title(), i.val)); break;
  case COMMENT: fn(V::mk_comment(i.val, "d")); break;
  case COUNT: fn(V::mk_count(num(i))); break;
  case RATING: fn(V::mk_rating("m", 7, num(i))); break;
  case OTHER: fn(V::mk_other(i.val)); break;
  case USERTEXT: fn(V::mk_usertext(i.val, "d")); break;
  }
}
// the same through a reference to the base class
template <class V, class F> static void with_base(const item &i, F fn) { with<V>(i, [&](const auto &f) { const typename V::base &b = f; fn(b); }); }
template <class V> static const char *name(int k) { const char *n[] = {V::title(), V::com(), V::cnt(), V::pop(), V::unk(), V::txx()}; return n[k]; }
template <class V> static items scan(const typename V::tag &t) { items r; for (auto p = t.cbegin(); p != t.cend(); ++p) r.push_back(seen<V>(*p)); return r; }
static items only(const items &x, int k) { items r; for (auto &i : x) if (i.kind == k) r.push_back(i); return r; }
// the same elements in any order: each as often in one as in the other
static bool same_set(const items &a, const items &b) {
  if (a.size() != b.size()) return false;
  bool r = true; for (auto &x : a) { unsigned m = 0, n = 0; for (auto &y : a) m += x == y; for (auto &y : b) n += x == y; r &= m == n; }
  return r;
}
template <class V> static void lookups(const typename V::tag &t) {
  items s = scan<V>(t); vp_assert(t.num_frames() == s.size(), "the number of frames");
  for (int k = 0; k < KINDS; ++k) {
    items o = only(s, k); typename V::id id(name<V>(k));
    vp_assert(t.has_frame(id) == o.size(), "how many frames there are of a kind");
    bool threw = false;
    try { item i = seen<V>(t.get_frame(id)); bool found = false; for (auto &x : o) found |= x == i; vp_assert(found, "a frame fetched by identifier is not in the tag"); }
    catch (const std::exception &) { threw = true; }
    vp_assert(threw == o.empty(), "fetching by identifier fails exactly when there is none");
  }
  items c, n, r;
  { std::vector<typename V::comment> v; t.get_comments(std::back_inserter(v)); for (auto &x : v) c.push_back(seen<V>(x)); }
  { std::vector<typename V::count> v; t.get_play_counts(std::back_inserter(v)); for (auto &x : v) n.push_back(seen<V>(x)); }
  { std::vector<typename V::rating> v; t.get_popularimeters(std::back_inserter(v)); for (auto &x : v) r.push_back(seen<V>(x)); }
  vp_assert(same_set(c, only(s, COMMENT)), "the comments found are not the comments there are");
  vp_assert(same_set(n, only(s, COUNT)), "the play counts found are not those there are");
  vp_assert(same_set(r, only(s, RATING)), "the ratings found are not those there are");
  items ti = only(s, TITLE); vp_assert(t.has_title() == ti.size() && !t.has_artist() && !t.has_album() && t.has_play_count() == only(s, COUNT).size(), "presence by name");
  if (!ti.empty()) { std::string x = t.title(), y = t.text(id3v2_text_frames::tit2); bool f = false, g = false; for (auto &i : ti) { f |= same(i.val, x); g |= same(i.val, y); } vp_assert(f & g, "the title is not that of a title frame"); }
  items co = only(s, COUNT);
  if (co.size() == 1) { std::size_t x = t.play_count(); bool f = false; for (auto &i : co) f |= num(i) == x; vp_assert(f, "the play count is not that of a frame"); }
  else if (co.empty()) { bool threw = false; try { t.play_count(); } catch (const std::exception &) { threw = true; } vp_assert(threw, "a play count out of nowhere"); }
}
// every way of walking over the frames
template <class V> static void walk(typename V::tag &t, const items &m) {
  std::size_t n = m.size(), i = 0; const typename V::tag &ct = t;
  for (auto p = t.begin(); p != t.end(); ++p, ++i) { const typename V::base &f = *p; vp_assert(i < n && seen<V>(f) == m[i] && p->id() == f.id(), "walking forwards"); }
  vp_assert(i == n && t.end() - t.begin() == (std::ptrdiff_t)n && ct.end() - ct.begin() == (std::ptrdiff_t)n, "distance between the ends");
  i = n; for (auto p = ct.end(); p != ct.begin();) { --p; --i; vp_assert(seen<V>(*p) == m[i] && p->id() == (*p).id(), "walking backwards"); }
  for (i = 0; i < n; ++i) { const typename V::base &f = t.begin()[i]; auto q = t.end() - (n - i); const typename V::base &g = *q; auto c = ct.begin() + i; vp_assert(&f == &g && &*c == &f && (i == 0 || ct.begin() < c), "random access"); }
}
// one edit, mirrored in m
template <class V> static void edit(typename V::tag &t, items &m, int op, int kinds) {
  auto k = [&] { return vp_choice(0, kinds - 1, "kind"); }; auto at = [&](int extra) { return vp_choice(0, m.size() - 1 + extra, "where"); };
  switch (op) {
  case 0: { item i = fresh(k()); with<V>(i, [&](const auto &f) { t.push_back(f); }); m.push_back(i); break; }
  case 1: { item i = fresh(k()); with_base<V>(i, [&](const auto &f) { t.push_back(f); }); m.push_back(i); break; }
  case 2: { item i = fresh(k()); int p = at(1); with<V>(i, [&](const auto &f) { auto q = t.insert(t.begin() + p, f); vp_assert(q - t.begin() == p, "insert returns where it inserted"); }); m.insert(m.begin() + p, i); break; }
  case 3: { item i = fresh(k()); int p = at(1); with_base<V>(i, [&](const auto &f) { t.insert(t.begin() + p, f); }); m.insert(m.begin() + p, i); break; }
  case 4: { if (m.empty()) break; int p = at(0); auto q = t.erase(t.begin() + p); vp_assert(q - t.begin() == p, "erase returns what follows"); m.erase(m.begin() + p); break; }
  case 5: { if (m.empty()) break; int p = at(0); item i = fresh(k()); with<V>(i, [&](const auto &f) { t.begin()[p] = f; }); m[p] = i; break; }
  case 6: { if (m.empty()) break; int p = at(0); item i = fresh(k()); with_base<V>(i, [&](const auto &f) { *(t.begin() + p) = f; }); m[p] = i; break; }
  case 7: { t.delete_frame(id3v2_text_frames::tit2); items s = scan<V>(t); if (only(m, TITLE).empty()) break;
      bool ok = false; for (std::size_t x = 0; x < m.size(); ++x) if (m[x].kind == TITLE) { items y = m; y.erase(y.begin() + x); ok |= same(y, s); }
      vp_assert(ok, "deleting by name removes one such frame"); m = s; break; }
  case 8: { item i = fresh(TITLE); t.title(i.val); items s = scan<V>(t); if (only(m, TITLE).empty()) { m.push_back(i); break; }
      bool ok = false; for (std::size_t x = 0; x < m.size(); ++x) if (m[x].kind == TITLE) { items y = m; y[x] = i; ok |= same(y, s); }
      vp_assert(ok, "setting by name changes one such frame"); vp_assert(same(t.title(), i.val), "the title is not the one just set"); m = s; break; }
  case 9: { item i = fresh(COMMENT); t.add_comment(i.val, language::eng, encoding::UTF_8, use_unicode::no, "d"); m.push_back(i); break; }
  case 10: { item i = fresh(USERTEXT); t.add_user_defined_text(i.val, encoding::UTF_8, use_unicode::no, "d"); m.push_back(i); break; }
  case 11: { int kk = k(); typename V::id id(name<V>(kk)); auto p = std::remove_if(t.begin(), t.end(), [&](const typename V::base &f) { return f.id() == id; }); t.erase(p, t.end()); items y; for (auto &i : m) if (i.kind != kk) y.push_back(i); m = y; break; }
  case 12: { int p = at(1), q = vp_choice(p, m.size(), "to"); auto r = t.erase(t.begin() + p, t.begin() + q); vp_assert(r - t.begin() == p, "erase returns what follows"); m.erase(m.begin() + p, m.begin() + q); break; }
  }
}
template <class V> static void check(typename V::tag &t, const items &m) { items s = scan<V>(t); vp_assert(same(s, m), "the frames are not those the edits leave"); lookups<V>(t); walk<V>(t, m); }
#endif
