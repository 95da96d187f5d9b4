// P07: a copy of a tag is equal to the original and independent of it.
#include "items.hh"
// how a tag answers and is written
struct look { std::size_t size, sized, frames, pad; u8 ver, rev, flags; bool needs; bytes plain, un; };
static look at(const id3v2_tag &t) {
  look l; l.size = t.size(false); l.sized = t.size(true); l.frames = t.num_frames(); l.pad = t.padding(); l.ver = t.version(); l.rev = t.revision(); l.needs = t.needs_unsynchronisation();
  l.flags = t.flags(); l.plain = save(t, false); l.un = save(t, true); return l;
}
static void equal(const look &a, const look &b, const char *msg) {
  vp_assert(a.size == b.size && a.sized == b.sized && a.frames == b.frames && a.pad == b.pad && a.ver == b.ver && a.rev == b.rev && a.flags == b.flags && a.needs == b.needs, msg);
  vp_assert(same(a.plain, b.plain) & same(a.un, b.un), msg);
}
template <class V> static std::unique_ptr<typename V::tag> copy(const typename V::tag &t, bool simple) {
  typedef typename V::tag T; items none;
  switch (vp_choice(0, 2, "how")) {
  case 0: vp_cover("copied"); return std::make_unique<T>(t);
  case 1: { vp_cover("cloned"); std::unique_ptr<id3v2_tag> p(t.clone()); vp_assert(dynamic_cast<T *>(p.get()), "a clone is of the same version"); return std::unique_ptr<T>(static_cast<T *>(p.release())); }
  default: {          // onto a tag that held something else
    auto p = std::make_unique<T>(3); int n = simple ? 2 : vp_choice(0, 2, "held"); if (n > 0) p->push_back(V::mk_comment("old", "old")); if (n > 1) { p->title("old"); p->push_back(V::mk_count(300)); p->push_back(V::mk_rating("old", 1, 2)); }
    if (n > 1) at(*p);
    T &r = (*p = t); vp_assert(&r == p.get(), "assignment returns its target"); vp_cover("assigned"); return p; }
  }
}
// what happens to one of the two
template <class V> static void change(typename V::tag &t, items &m) {
  switch (vp_choice(0, 3, "change")) {
  case 0: { static const int ops[] = {0, 4, 5, 7, 8, 9, 11}; edit<V>(t, m, ops[vp_choice(0, 6, "edit")], 2); break; }
  case 1: t.padding(t.padding() + 1); break;
  case 2: if (!m.empty()) { typename V::base &f = t.begin()[0];
      if (auto p = dynamic_cast<typename V::text *>(&f)) { m[0].val = word(1, "val"); p->set(m[0].val); }
      else if (auto p = dynamic_cast<typename V::comment *>(&f)) { m[0].val = word(1, "val"); p->comments::text(m[0].val, encoding::UTF_8); }
      else if (auto p = dynamic_cast<typename V::count *>(&f)) { m[0] = fresh(COUNT); p->count(num(m[0])); }
      else if (auto p = dynamic_cast<typename V::rating *>(&f)) { m[0] = fresh(RATING); p->count(num(m[0])); }
      vp_cover("changed in place"); }
    break;
  case 3: at(t); break;
  }
}
template <class V> static void copies() {
  auto t = std::make_unique<typename V::tag>(1); items m; int n = vp_choice(0, 2, "frames"); for (int i = 0; i < n; ++i) edit<V>(*t, m, 0, n == 1 ? KINDS : 4 - i);
  bool written = vp_flag("written before"); if (written) at(*t);
  auto c = copy<V>(*t, false); equal(at(*c), at(*t), "a copy does not answer as the original"); check<V>(*c, m); check<V>(*t, m);
  items mt = m, mc = m; bool which = vp_flag("change the copy");
  if (which) { look before = at(*t); change<V>(*c, mc); equal(at(*t), before, "changing a copy changes the original"); vp_cover("changed the copy"); }
  else { look before = at(*c); change<V>(*t, mt); equal(at(*c), before, "changing the original changes a copy"); }
  check<V>(*t, mt); check<V>(*c, mc);
  if (!which) { look before = at(*t); c.reset(); equal(at(*t), before, "dropping a copy changes the original"); check<V>(*t, mt); }
  else { look before = at(*c); t.reset(); equal(at(*c), before, "dropping the original changes a copy"); check<V>(*c, mc); vp_cover("original gone"); }
}
// tags as read, with every header option and every kind of frame
template <class V> static void options() {
  const int v = V::ver; sample s{v}; s.pad = vp_choice(0, 1, "padding");
  if (v == 3) { s.flags = s.pad ? 0x20 : 0; if (vp_flag("extended")) { s.flags |= 0x40; bool crc = vp_flag("crc"); s.ext = be(crc ? 10 : 6, 4) + bytes(1, crc ? (char)0x80 : 0) + bytes(1, 0) + be(s.pad, 4) + (crc ? any_text(4, "checksum") : bytes()); } }
  if (v == 4) {
    s.flags = s.pad ? 0 : vp_flag("footer") ? 0x30 : 0x20;
    if (vp_flag("extended")) { s.flags |= 0x40; static const int what[] = {0, 2, 4, 7}; int k = what[vp_choice(0, 3, "what")]; bytes body; u8 f = 0;
      if (k & 1) { f |= 0x40; body += bytes(1, 0); }
      if (k & 2) { f |= 0x20; body += bytes(1, 5); bytes q = any_text(5, "checksum"); q[0] &= 0x0f; for (int i = 1; i < 5; ++i) q[i] &= 0x7f; body += q; }
      if (k & 4) { f |= 0x10; body += bytes(1, 1) + any_text(1, "restrictions"); }
      s.ext = ss(6 + body.size()) + bytes(1, 1) + bytes(1, (char)f) + body; }
  }
  frame f;
  switch (vp_choice(0, v > 2 ? 7 : 5, "kind")) {
  case 0: f = id_frame(v, 1); break; case 1: f = rating_frame(v, 1); break; case 2: f = usertext_frame(v, 1, 1); break; case 3: f = comment_frame(v, 1, 1); break;
  case 4: f = cloud_frame(v); break; case 5: f = other_frame(v, 1); break; case 6: f = priv_frame(v, 1); break; case 7: f = method_frame(v, 1); break;
  }
  if (v > 2 && (s.ext.empty() || vp_flag("flags"))) { f.f0 = v == 3 ? 0xa0 : 0x50; f.f1 = v == 3 ? 0x20 : 0x40; f.body = any_text(1, "group") + f.body; }
  for (char c : f.body) vp_assume((u8)c != 0xff);             // bound: escapes are left to h_copies and to P02
  for (char c : s.ext) vp_assume((u8)c != 0xff);
  s.frames.push_back(f); encode(s); auto p = load(s); auto &t = dynamic_cast<typename V::tag &>(*p); look was = at(t);
  auto c = copy<V>(t, true); equal(at(*c), was, "a copy of a tag read does not answer as the original");
  if (vp_flag("original gone")) p.reset();
  c->push_back(V::mk_other("z")); if (p) equal(at(t), was, "changing a copy changes the original"); c->erase(--c->end());
  if (!s.ext.size()) equal(at(*c), was, "a copy does not answer as the original once edited and restored"); vp_cover("header options");
}
// a tag assigned to itself; two tags exchanged through copies
template <class V> static void self() {
  typename V::tag t(1); items m; int n = vp_choice(0, 2, "frames"); for (int i = 0; i < n; ++i) edit<V>(t, m, 0, KINDS);
  look was = at(t); typename V::tag &alias = t; t = alias; equal(at(t), was, "assigning a tag to itself changes it"); check<V>(t, m); vp_cover("assigned to itself");
  typename V::tag u(0); items k; edit<V>(u, k, 0, 4); look other = at(u);
  typename V::tag tmp(t); t = u; u = tmp; equal(at(t), other, "exchanging tags"); equal(at(u), was, "exchanging tags"); check<V>(t, k); check<V>(u, m); check<V>(tmp, m);
}
// single frames
template <class V> static void frames() {
  item i = fresh(vp_choice(0, KINDS - 1, "kind"));
  with<V>(i, [&](const auto &f) {
    const typename V::base &b = f; bool u = vp_flag("unsync"); auto bytes_of = [u](const typename V::base &x) { std::ostringstream os; x.write(os, u); return os.str(); };
    if (vp_flag("written before")) bytes_of(b);
    std::unique_ptr<typename V::base> c(b.clone()); vp_assert(typeid(*c) == typeid(b) && seen<V>(*c) == i, "a cloned frame is not the original");
    bytes was = bytes_of(b); vp_assert(same(bytes_of(*c), was) && c->size() == b.size() && c->serialized_size(u) == b.serialized_size(u) && c->id() == b.id() && c->experimental() == b.experimental(), "a cloned frame is written differently");
    auto g(f); if (auto p = dynamic_cast<typename V::count *>(c.get())) { p->inc(); vp_assert(dynamic_cast<const typename V::count &>(b).count() == num(i) && p->count() == num(i) + 1, "changing a clone changes the frame"); }
    if (auto p = dynamic_cast<typename V::text *>(c.get())) p->set("new");
    if (auto p = dynamic_cast<typename V::comment *>(c.get())) { p->comments::text("new", encoding::UTF_8); p->comments::description("new", encoding::UTF_8); }
    vp_assert(same(bytes_of(b), was) && same(bytes_of(g), was), "changing a clone changes the frame"); c.reset(); vp_assert(same(bytes_of(b), was), "dropping a clone changes the frame");
  });
  vp_cover("frames cloned");
}
#define ALL(n) extern "C" void h_##n##22() { n<V2>(); } extern "C" void h_##n##23() { n<V3>(); } extern "C" void h_##n##24() { n<V4>(); }
ALL(copies) ALL(options) ALL(self) ALL(frames)
