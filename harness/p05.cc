// P05: frames keep the latest values put into them, whatever was serialised in between.
#include "edit.hh"
// A text of one or two characters: ASCII, Latin-1 beyond ASCII, other two-byte UTF-8, three-byte UTF-8
static std::string some_text(const char *name, int most = 3) {
  int k = vp_choice(0, most, "script"); if (k == 0) return word(vp_choice(0, 2, "n"), name);
  std::string s = any_text(k == 3 ? 3 : 2, name); for (std::size_t i = 1; i < s.size(); ++i) vp_assume(((u8)s[i] & 0xc0) == 0x80);
  if (k == 1) vp_assume((u8)s[0] == 0xc3); else if (k == 2) vp_assume((u8)s[0] >= 0xc4 && (u8)s[0] <= 0xdf); else vp_assume((u8)s[0] >= 0xe1 && (u8)s[0] <= 0xec);
  vp_cover("text beyond ASCII"); return s;
}
// what else happens to a tag between edits
template <class T> static void look(T &t) {
  switch (vp_choice(0, 2, "look")) {
  case 0: break;
  case 1: save(t, true); break;
  case 2: t.size(false); t.needs_unsynchronisation(); save(t, false); break;
  }
}
template <class V, class F> static F &nth(typename V::tag &t, std::size_t i) { typename V::base &b = t.begin()[i]; F *p = dynamic_cast<F *>(&b); vp_assert(p, "a frame is not of the kind put in"); return *p; }
// the two ways the tag can be written, decoded independently
template <class V> static frame stored(typename V::tag &t, std::size_t i) { content c = decode(save(t, vp_flag("unsync"))); vp_assert(c.frames.size() > i, "a frame is missing"); return c.frames[i]; }
static std::string str(const std::vector<u8> &v) { return std::string(v.begin(), v.end()); }
template <class V> static typename V::tag &reread(std::unique_ptr<id3v2_tag> &p, typename V::tag &t) { p = load(save(t, vp_flag("reread unsync"))); return dynamic_cast<typename V::tag &>(*p); }

template <class V> static void text() {
  typename V::tag t; std::string now = word(1, "first");
  t.push_back(V::mk_text(V::title(), now)); t.push_back(V::mk_other("\xff\xe0"));
  for (int i = 0; i < 2; ++i) {
    look(t);
    if (vp_flag("set")) {
      now = some_text("text");
      if (vp_flag("by name")) t.title(now); else nth<V, typename V::text>(t, 0).set(now);
    }
    auto &f = nth<V, typename V::text>(t, 0); vp_assert(f.template as_str<std::string>() == now && t.title() == now, "the text is not the one set last");
  }
  vp_cover("text set"); std::unique_ptr<id3v2_tag> p; typename V::tag &r = reread<V>(p, t);
  auto &f = nth<V, typename V::text>(r, 0); vp_assert(r.num_frames() == 2 && f.template as_str<std::string>() == now, "the text is not the one set last, once written");
}
template <class V> static void comment() {
  typename V::tag t; bool uni = vp_flag("unicode"); std::string now = word(1, "first"), dsc = word(vp_choice(0, 1, "n"), "description");
  t.push_back(V::mk_comment(now, dsc, uni ? use_unicode::yes : use_unicode::no));
  for (int i = 0; i < 2; ++i) {
    look(t); auto &c = nth<V, typename V::comment>(t, 0); int most = uni ? 2 : 1;
    switch (vp_choice(0, 2, "edit")) {
    case 0: break;
    case 1: now = some_text("text", most); c.comments::text(now, encoding::UTF_8); break;
    case 2: dsc = some_text("description", most); c.comments::description(dsc, encoding::UTF_8); break;
    }
    vp_assert(c.template text<std::string>() == now && c.template description<std::string>() == dsc, "the comment is not the one set last");
  }
  vp_cover("comment set"); std::unique_ptr<id3v2_tag> p; typename V::tag &r = reread<V>(p, t); auto &c = nth<V, typename V::comment>(r, 0);
  vp_assert(c.template text<std::string>() == now && c.template description<std::string>() == dsc && c.lang() == std::make_tuple('e', 'n', 'g'), "the comment is not the one set last, once written");
}
// counters: any 32-bit count, set, counted up
static unsigned long long counted(const bytes &b) { vp_assert(!b.empty(), "an empty counter"); return number(b); }
// a count of any width; close to where the width changes unless it is small
static unsigned big() {
  unsigned n = vp_any<unsigned>("count"); int w = vp_choice(1, 4, "width");
  if (w == 1) vp_assume(n < 0x200); else if (w == 4) vp_assume(n >= 0xffffff00u); else vp_assume(n + 0x100 >= 1u << 8 * w && n < (1u << 8 * w) + 0x100);
  return n;
}
template <class C> static bytes counter(C &c) { bytes b; c.counterb(std::back_inserter(b)); return b; }
template <class V> static void count() {
  typename V::tag t; unsigned long long now = big(); t.push_back(V::mk_count(now));
  for (int i = 0; i < 2; ++i) {
    look(t); auto &c = nth<V, typename V::count>(t, 0);
    if (i == 0 || vp_flag("count up")) { vp_assume(now < 0xffffffffu); c.inc(); ++now; } else { now = vp_any<u8>("count"); c.count(now); }
    vp_assert(c.count() == now && counted(counter(c)) == now && t.play_count() == now, "the count is not the latest one");
  }
  vp_cover("counter set"); frame f = stored<V>(t, 0); vp_assert(counted(f.body) == now, "the count stored is not the latest one");
}
// a counter as other programs write them: any number of bytes
template <class V> static void wide() {
  sample s{V::ver}; s.frames.push_back(count_frame(V::ver, vp_choice(1, 5, "n"))); s.pad = 1; encode(s); auto p = load(s); auto &t = dynamic_cast<typename V::tag &>(*p);
  unsigned long long now = number(s.frames[0].body); look(t); auto &c = nth<V, typename V::count>(t, 0); bool known = true;
  try { vp_assert(c.count() == now, "the count read is not the one stored"); } catch (const std::exception &) { known = false; vp_assert(s.frames[0].body.size() > 4, "a count that fits is refused"); }
  if (known) { c.inc(); ++now; if (now >> 32 == 0) vp_assert(c.count() == now, "counting up loses counts"); vp_cover("counted up"); }
  frame f = stored<V>(t, 0); vp_assert(counted(f.body) == now, "counting up loses counts, once written");
}
template <class V> static void rating() {
  typename V::tag t; unsigned long long now = big(); u8 r = vp_any<u8>("rating"); std::string m = word(vp_choice(0, 1, "n"), "mail");
  t.push_back(V::mk_rating(m, r, now)); int n = vp_choice(0, 2, "edit"); look(t); auto &c = nth<V, typename V::rating>(t, 0);
  if (n == 0) { r = vp_any<u8>("rating"); c.rating(r); } else if (n == 1) { now = big(); c.count(now); } else { vp_assume(now < 0xffffffffu); c.inc(); ++now; }
  look(t); std::string own; c.emailb(std::back_inserter(own));
  vp_assert(c.rating() == r && c.count() == now && counted(counter(c)) == now && own == m, "the rating is not the latest one");
  frame f = stored<V>(t, 0); vp_cover("rating set");
  vp_assert(f.body.substr(0, m.size() + 1) == m + nul() && f.body.size() > m.size() + 2 && (u8)f.body[m.size() + 1] == r && counted(f.body.substr(m.size() + 2)) == now, "the rating stored is not the latest one");
}
// clouds: keys and values added one after another
typedef std::map<std::string, std::set<std::string>> keys;
template <class C> static keys all(const C &c) { keys k; for (auto &x : c) k[x.first] = x.second; return k; }
template <class V> static void cloud() {
  typename V::tag t; std::string own = word(vp_choice(0, 1, "n"), "owner"); keys now; t.push_back(V::mk_cloud(own, "a=b")); now["a"].insert("b");
  for (int i = 0; i < 2; ++i) {
    look(t); auto &c = nth<V, typename V::cloud>(t, 0);
    switch (vp_choice(0, 4, "edit")) {
    case 0: { std::string k = word(1, "key"); vp_assert(c.add_key(k) == !now.count(k), "whether a key is new"); now[k]; break; }
    case 1: { std::string k = word(1, "key"), v = word(1, "value"); vp_assert(c.add_value(k, v) == !(now.count(k) && now[k].count(v)), "whether a value is new"); now[k].insert(v); break; }
    case 2: { std::string k = word(1, "key"), v = word(1, "value"); vp_assume(isalnum(k[0]) && isalnum(v[0])); c.merge(k + "=" + v); now[k].insert(v); break; }
    case 3: { std::string k = word(1, "key"), v = word(1, "value"); vp_assume(isalnum(k[0]) && isalnum(v[0])); c.update(k + "=" + v); now.clear(); now[k].insert(v); break; }
    case 4: c.reset({{"x", {"y", "z"}}}); now.clear(); now["x"] = {"y", "z"}; break;
    }
    vp_assert(all(c) == now && c.owner() == own, "the cloud is not the latest one");
  }
  vp_cover("cloud set"); std::unique_ptr<id3v2_tag> p; typename V::tag &r = reread<V>(p, t); auto &c = nth<V, typename V::cloud>(r, 0);
  vp_assert(all(c) == now && c.owner() == own, "the cloud is not the latest one, once written");
}
// a cloud given as text, merged into or put in place of another
template <class V> static void merged() {
  typename V::tag t; std::string k = word(1, "key"), l = word(1, "key"), v = word(1, "value"), w = word(1, "value"); keys now, more; for (const std::string &x : {k, l, v, w}) vp_assume(isalnum(x[0]));
  t.push_back(V::mk_cloud("me", "a=b&c")); now["a"].insert("b"); now["c"]; std::string q; auto &c = nth<V, typename V::cloud>(t, 0);
  switch (vp_choice(0, 4, "form")) {
  case 0: q = k; more[k]; break;
  case 1: q = k + "=" + v + "," + w; more[k] = {v, w}; break;
  case 2: q = k + "&" + l; vp_assume(k != l); more[k]; more[l]; break;
  case 3: q = k + "=" + v + "&" + l; vp_assume(k != l); more[k].insert(v); more[l]; break;
  case 4: q = k + "&" + l + "=" + v; vp_assume(k != l); more[k]; more[l].insert(v); break;
  }
  if (vp_flag("merge")) { c.merge(q); for (auto &x : more) now[x.first].insert(x.second.begin(), x.second.end()); } else { c.update(q); now = more; }
  vp_assert(all(c) == now && c.owner() == "me", "the cloud is not the latest one"); vp_cover("cloud merged"); look(t);
  std::unique_ptr<id3v2_tag> p; typename V::tag &r = reread<V>(p, t); auto &d = nth<V, typename V::cloud>(r, 0); vp_assert(all(d) == now && d.owner() == "me", "the cloud is not the latest one, once written");
}
// values a frame is built from
template <class V> static void built() {
  typename V::tag t; std::string a = some_text("text", 2), d = some_text("description", 2); std::unique_ptr<id3v2_tag> p;
  switch (vp_choice(0, 1, "kind")) {
  case 0: { t.push_back(V::mk_usertext(a, d, use_unicode::yes)); typename V::tag &r = vp_flag("reread") ? reread<V>(p, t) : t; auto &f = nth<V, typename V::usertext>(r, 0);
      vp_assert(f.template text<std::string>() == a && f.template description<std::string>() == d, "a user-defined text is not what it was built from"); break; }
  case 1: { t.push_back(V::mk_comment(a, d, use_unicode::yes)); typename V::tag &r = vp_flag("reread") ? reread<V>(p, t) : t; auto &f = nth<V, typename V::comment>(r, 0);
      vp_assert(f.template text<std::string>() == a && f.template description<std::string>() == d, "a comment is not what it was built from"); break; }
  }
  vp_cover("built");
}
// what the accessors say of a frame read from a tag
#define GET(from, fn) [&] { bytes r; (from).fn(std::back_inserter(r)); return r; }()
template <class V> static void parsed() {
  const int v = V::ver; sample s{v}; int k = vp_choice(0, v > 2 ? 7 : 5, "kind"); frame f;
  switch (k) {
  case 0: f = id_frame(v, 2); break; case 1: f = rating_frame(v, vp_choice(0, 2, "n")); break; case 2: f = usertext_frame(v, vp_choice(0, 1, "n"), 1); break;
  case 3: f = comment_frame(v, vp_choice(0, 1, "n"), 1); break; case 4: f = cloud_frame(v); break; case 5: f = other_frame(v, 2); break;
  case 6: f = priv_frame(v, vp_choice(0, 2, "n")); break; case 7: f = method_frame(v, vp_choice(0, 2, "n")); break;
  }
  bytes b = f.body; if (v > 2) any_flags(v, f);
  s.frames.push_back(f); s.pad = 1; encode(s); auto p = load(s); auto &t = dynamic_cast<typename V::tag &>(*p); look(t); vp_assert(t.num_frames() == 1, "one frame is read");
  const typename V::base &base = *t.cbegin();
  vp_assert(base.id() == typename V::id(f.id.c_str()), "the identifier of a frame");
  if constexpr (v > 2) {
    int sh = v == 3 ? 5 : 4; bool ta = f.f0 >> (sh + 2) & 1, fa = f.f0 >> (sh + 1) & 1, r = f.f0 >> sh & 1;
    vp_assert((base.tag_alter_preserve() == TAP::discard) == ta && (base.file_alter_preserve() == FAP::discard) == fa && (base.readonly() == RO::set) == r, "the flags of a frame");
    vp_assert(base.grouped() == (f.body.size() != b.size()) && !base.compressed() && !base.encrypted(), "the group of a frame");
  }
  std::size_t z = b.find((char)0);
  switch (k) {
  case 0: { auto &x = dynamic_cast<const unique_file_id &>(base); vp_assert(GET(x, ownerb) == b.substr(0, z) && GET(x, idb) == b.substr(z + 1), "the file identifier read"); break; }
  case 1: { auto &x = dynamic_cast<const popularimeter &>(base); vp_assert(GET(x, emailb) == b.substr(0, z) && x.rating() == (u8)b[z + 1] && GET(x, counterb) == b.substr(z + 2) && x.count() == number(b.substr(z + 2)), "the rating read"); break; }
  case 2: { auto &x = dynamic_cast<const user_defined_text &>(base); bool w = b[0] == 1 || b[0] == 2; std::size_t n = b.size() - 1 - (w ? 2 : 1), d = n - (w ? 2 : 1);
      vp_assert(x.unicode() == (u8)b[0] && GET(x, descriptionb) == b.substr(1, d) && GET(x, textb) == b.substr(1 + d + (w ? 2 : 1)), "the user-defined text read"); break; }
  case 3: { auto &x = dynamic_cast<const comments &>(base); bool w = b[0] == 1 || b[0] == 2; std::size_t n = b.size() - 4 - (w ? 2 : 1), d = n - (w ? 2 : 1);
      vp_assert(x.unicode() == (u8)b[0] && x.lang() == std::make_tuple((u8)b[1], (u8)b[2], (u8)b[3]) && GET(x, descriptionb) == b.substr(4, d) && GET(x, textb) == b.substr(4 + d + (w ? 2 : 1)), "the comment read"); break; }
  case 4: { auto &x = dynamic_cast<const tag_cloud &>(base); keys want; want[bytes(1, b[3])].insert(bytes(1, b[9])); vp_assert(all(x) == want && x.owner() == b.substr(1, 1), "the cloud read"); break; }
  case 5: { auto &x = dynamic_cast<const typename V::other &>(base); vp_assert(GET(x, data) == b, "the data of an unknown frame"); break; }
  case 6: if constexpr (v > 2) { auto &x = dynamic_cast<const scribbu::private_frame &>(base); vp_assert(GET(x, emailb) == b.substr(0, z) && GET(x, contentsb) == b.substr(z + 1) && x.contents_size() == b.size() - z - 1, "the private frame read"); break; }
  case 7: { auto &x = dynamic_cast<const encryption_method &>(base); vp_assert(GET(x, emailb) == b.substr(0, z) && x.method_symbol() == (u8)b[z + 1] && GET(x, datab) == b.substr(z + 2), "the encryption method read"); break; }
  }
  vp_cover("accessors agree");
}
#define ALL(n) extern "C" void h_##n##22() { n<V2>(); } extern "C" void h_##n##23() { n<V3>(); } extern "C" void h_##n##24() { n<V4>(); }
ALL(text) ALL(comment) ALL(count) ALL(wide) ALL(rating) ALL(cloud) ALL(merged) ALL(built) ALL(parsed)
