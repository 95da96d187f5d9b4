#include "libguile.h"
#include "vp.h"
using namespace vpguile;
// the classes scripts see, from scheme/scribbu.scm: name, parent, slots with their first values
struct vp_slot_t { const char *name; char kind; const char *val; };
struct vp_class_t { const char *name, *super; std::vector<vp_slot_t> slots; };
static const std::vector<vp_class_t> &classes() { static const std::vector<vp_class_t> *v = new std::vector<vp_class_t>{
#include "vp_goops.inc"
  }; return *v; }
namespace vpguile {
  obj t(constant), f(constant), eol(constant), nil(constant), eof(constant), undefined(constant), unspecified(constant); bool latin1; std::size_t warnings;
  obj *live(obj *x) { vp_assert(x != 0, "a null pointer is used as a Scheme object"); return x; }
  obj *wrong(const char *where, const char *what) { throw error{&f, where, what}; }
  void bind(const char *where, obj *rest, obj *kw, obj **val) { for (; live(rest)->k == pair; rest = rest->at[1]->at[1]) { if (rest->at[1]->k != pair) wrong(where, "keyword without value"); if (rest->at[0] == kw) *val = rest->at[1]->at[0]; } }
}
static obj *need(SCM x, kind k, const char *w) { if (live(x)->k != k) wrong(w, "wrong type"); return x; }
// ---- classes ---------------------------------------------------------------------------
static std::vector<obj *> &klasses() { static std::vector<obj *> *v = new std::vector<obj *>; return *v; }
SCM scm_c_public_ref(const char *, const char *name) {
  for (obj *c : klasses()) if (c->str == name) return c;
  for (auto &c : classes()) if (!strcmp(c.name, name)) { obj *o = new obj(klass); o->str = name; klasses().push_back(o); return o; }
  return wrong("module-ref", name);
}
static const vp_class_t *cls(const std::string &n) { for (auto &c : classes()) if (n == c.name) return &c; return 0; }
static void slots(const vp_class_t *c, std::vector<const vp_slot_t *> &v) { if (!c) return; slots(cls(c->super), v); for (auto &s : c->slots) v.push_back(&s); }
SCM scm_make(SCM args) {
  obj *c = need(need(args, pair, "make")->at[0], klass, "make"); obj *o = new obj(instance); o->str = c->str; std::vector<const vp_slot_t *> v; slots(cls(c->str), v);
  for (auto *s : v) switch (s->kind) { case 's': o->at.push_back(scm_from_utf8_string(s->val)); break; case 'y': o->at.push_back(scm_from_utf8_symbol(s->val)); break; case 'n': o->at.push_back(scm_from_int(atoi(s->val))); break; case 'v': o->at.push_back(scm_c_make_bytevector(0)); break; case 't': o->at.push_back(&t); break; case 'f': o->at.push_back(&f); break; default: o->at.push_back(&eol); }
  return o;
}
SCM scm_class_of(SCM x) { live(x); return x->k == instance ? scm_c_public_ref("", x->str.c_str()) : &unspecified; }
bool vp_is_a(SCM x, SCM c) { if (live(x)->k != instance) return false; need(c, klass, "is-a?"); for (auto *p = cls(x->str); p; p = cls(p->super)) if (c->str == p->name) return true; return false; }
SCM vp_slot(SCM x, std::size_t i) { live(x); vp_assert(x->k == instance, "a slot of something that has none"); vp_assert(i < x->at.size(), "a slot the object does not have"); return x->at[i]; }
void vp_set_slot(SCM x, std::size_t i, SCM v) { live(x); live(v); vp_assert(x->k == instance, "a slot of something that has none"); vp_assert(i < x->at.size(), "a slot the object does not have"); x->at[i] = v; }
static std::size_t slot_no(SCM x, SCM n) { need(x, instance, "slot"); need(n, symbol, "slot"); std::vector<const vp_slot_t *> v; slots(cls(x->str), v); for (std::size_t i = v.size(); i--; ) if (n->str == v[i]->name) return i; wrong("slot", "no such slot"); return 0; }
SCM scm_slot_ref(SCM x, SCM n) { return x->at[slot_no(x, n)]; }
SCM scm_slot_set_x(SCM x, SCM n, SCM v) { x->at[slot_no(x, n)] = live(v); return &unspecified; }
// ---- strings: kept as UTF-8 ------------------------------------------------------------
// the length of the character at i, 0 when there is none
static std::size_t u8len(const unsigned char *s, std::size_t n, std::size_t i) {
  unsigned char c = s[i]; if (c < 0x80) return 1; std::size_t k = c >= 0xf0 && c < 0xf5 ? 4 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xc2 && c < 0xe0 ? 2 : 0; if (!k || i + k > n) return 0;
  bool ok = true; for (std::size_t j = 1; j < k; ++j) ok &= (s[i + j] & 0xc0) == 0x80; if (!ok) return 0;
  unsigned char d = s[i + 1]; if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) return 0; return k;
}
static SCM str(const char *p, std::size_t n, bool lenient) {
  obj *o = new obj(text); const unsigned char *s = (const unsigned char *)p;
  for (std::size_t i = 0; i < n; ) { std::size_t k = u8len(s, n, i); if (!k) { if (!lenient) wrong("scm_from_utf8_stringn", "decoding error"); o->str += "\xef\xbf\xbd"; ++i; } else { o->str.append(p + i, k); i += k; } }
  return o;
}
static SCM lat(const char *p, std::size_t n) { obj *o = new obj(text); for (std::size_t i = 0; i < n; ++i) { unsigned char c = p[i]; if (c < 0x80) o->str += (char)c; else { o->str += (char)(0xc0 | c >> 6); o->str += (char)(0x80 | (c & 63)); } } return o; }
static bool utf8(const char *e) { return !e || !strcasecmp(e, "UTF-8") || !strcasecmp(e, "UTF8"); }
SCM scm_from_utf8_stringn(const char *p, std::size_t n) { return str(p, n == (std::size_t)-1 ? strlen(p) : n, false); }
SCM scm_from_utf8_string(const char *p) { return str(p, strlen(p), false); }
SCM scm_from_latin1_stringn(const char *p, std::size_t n) { return lat(p, n == (std::size_t)-1 ? strlen(p) : n); }
SCM scm_from_latin1_string(const char *p) { return lat(p, strlen(p)); }
SCM scm_from_locale_stringn(const char *p, std::size_t n) { if (n == (std::size_t)-1) n = strlen(p); return latin1 ? lat(p, n) : str(p, n, true); }
SCM scm_from_locale_string(const char *p) { return scm_from_locale_stringn(p, -1); }
SCM scm_from_stringn(const char *p, std::size_t n, const char *enc, int how) { if (n == (std::size_t)-1) n = strlen(p); return utf8(enc) ? str(p, n, how != SCM_FAILED_CONVERSION_ERROR) : lat(p, n); }
static std::string to_latin1(const std::string &s) { std::string r; const unsigned char *p = (const unsigned char *)s.data(); for (std::size_t i = 0; i < s.size(); ) { std::size_t k = u8len(p, s.size(), i); if (k == 1) r += s[i]; else if (k == 2 && p[i] < 0xc4) r += (char)(p[i] << 6 | (p[i + 1] & 63)); else r += '?'; i += k ? k : 1; } return r; }
static char *out(const std::string &s, std::size_t *n) {
  if (n) *n = s.size(); else for (char c : s) if (c == 0) wrong("scm_to_stringn", "string contains #\\nul character");
  char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); if (!n) p[s.size()] = 0; return p;
}
char *scm_to_utf8_stringn(SCM x, std::size_t *n) { return out(need(x, text, "scm_to_utf8_stringn")->str, n); }
char *scm_to_utf8_string(SCM x) { return scm_to_utf8_stringn(x, 0); }
char *scm_to_latin1_stringn(SCM x, std::size_t *n) { return out(to_latin1(need(x, text, "scm_to_latin1_stringn")->str), n); }
char *scm_to_latin1_string(SCM x) { return scm_to_latin1_stringn(x, 0); }
char *scm_to_locale_stringn(SCM x, std::size_t *n) { return latin1 ? scm_to_latin1_stringn(x, n) : scm_to_utf8_stringn(x, n); }
char *scm_to_locale_string(SCM x) { return scm_to_locale_stringn(x, 0); }
char *scm_to_stringn(SCM x, std::size_t *n, const char *enc, int) { return utf8(enc) ? scm_to_utf8_stringn(x, n) : scm_to_latin1_stringn(x, n); }
static SCM intern(kind k, const std::string &s) { static std::vector<obj *> *v; if (!v) v = new std::vector<obj *>; for (obj *o : *v) if (o->k == k && o->str == s) return o; obj *o = new obj(k); o->str = s; v->push_back(o); return o; }
SCM scm_string_to_symbol(SCM x) { return intern(symbol, need(x, text, "string->symbol")->str); }
SCM scm_symbol_to_string(SCM x) { obj *o = new obj(text); o->str = need(x, symbol, "symbol->string")->str; return o; }
SCM scm_from_utf8_symbol(const char *p) { return intern(symbol, p); }
SCM scm_from_utf8_keyword(const char *p) { return intern(keyword, p); }
// ---- numbers ---------------------------------------------------------------------------
static SCM num(long long n) { obj *o = new obj(integer); o->num = n; return o; }
static long long val(SCM x, long long lo, unsigned long long hi, const char *w) { need(x, integer, w); if (hi == ~0ull) { if (lo == 0 && x->str.size() == 0 && x->num < 0) wrong(w, "out of range"); return x->num; } if (x->str.size() || x->num < lo || x->num > (long long)hi) wrong(w, "out of range"); return x->num; }
static SCM unum(unsigned long long n) { SCM x = num((long long)n); if ((long long)n < 0) x->str = "u"; return x; }
SCM scm_from_int(int n) { return num(n); } SCM scm_from_uint(unsigned n) { return num(n); } SCM scm_from_uchar(unsigned char n) { return num(n); } SCM scm_from_size_t(std::size_t n) { return unum(n); } SCM scm_from_uintmax(std::uintmax_t n) { return unum(n); } SCM scm_from_uint32(std::uint32_t n) { return num(n); } SCM scm_from_uint64(std::uint64_t n) { return unum(n); } SCM scm_from_bool(int b) { return b ? &t : &f; }
int scm_to_int(SCM x) { return (int)val(x, -2147483648ll, 2147483647ull, "scm_to_int"); } unsigned scm_to_uint(SCM x) { return (unsigned)val(x, 0, 0xffffffffull, "scm_to_uint"); } unsigned char scm_to_uchar(SCM x) { return (unsigned char)val(x, 0, 255, "scm_to_uchar"); } std::size_t scm_to_size_t(SCM x) { return (std::size_t)val(x, 0, ~0ull, "scm_to_size_t"); } std::uint32_t scm_to_uint32(SCM x) { return scm_to_uint(x); } std::uint64_t scm_to_uint64(SCM x) { return scm_to_size_t(x); }
int scm_to_bool(SCM x) { live(x); if (x != &t && x != &f) wrong("scm_to_bool", "wrong type"); return x == &t; }
// ---- lists -----------------------------------------------------------------------------
static bool nul_p(SCM x) { return live(x) == &eol || x == &nil; }
SCM scm_cons(SCM a, SCM b) { obj *o = new obj(pair); o->at.push_back(live(a)); o->at.push_back(live(b)); return o; }
SCM scm_acons(SCM k, SCM v, SCM l) { return scm_cons(scm_cons(k, v), l); }
SCM scm_list_1(SCM a) { return scm_cons(a, &eol); } SCM scm_list_2(SCM a, SCM b) { return scm_cons(a, scm_list_1(b)); } SCM scm_list_3(SCM a, SCM b, SCM c) { return scm_cons(a, scm_list_2(b, c)); }
SCM scm_car(SCM x) { return need(x, pair, "car")->at[0]; } SCM scm_cdr(SCM x) { return need(x, pair, "cdr")->at[1]; }
static SCM join(SCM a, SCM b) { return nul_p(a) ? b : scm_cons(scm_car(a), join(scm_cdr(a), b)); }
SCM scm_append(SCM l) { if (nul_p(l)) return &eol; SCM r = scm_cdr(l); return nul_p(r) ? scm_car(l) : join(scm_car(l), scm_append(r)); }
SCM scm_reverse(SCM l) { SCM r = &eol; for (; !nul_p(l); l = scm_cdr(l)) r = scm_cons(scm_car(l), r); return r; }
SCM scm_length(SCM l) { int n = 0; for (; !nul_p(l); l = need(l, pair, "length")->at[1]) ++n; return num(n); }
SCM scm_list_tail(SCM l, SCM i) { for (std::size_t n = scm_to_size_t(i); n--; ) l = scm_cdr(l); return l; }
SCM scm_list_ref(SCM l, SCM i) { return scm_car(scm_list_tail(l, i)); }
SCM scm_list_p(SCM l) { while (!nul_p(l)) { if (l->k != pair) return &f; l = l->at[1]; } return &t; }
SCM scm_null_p(SCM x) { return scm_from_bool(nul_p(x)); } SCM scm_string_p(SCM x) { return scm_from_bool(live(x)->k == text); } SCM scm_variable_p(SCM) { return &f; } SCM scm_eq_p(SCM a, SCM b) { return scm_from_bool(live(a) == live(b)); }
int scm_is_null(SCM x) { return nul_p(x); } int scm_is_pair(SCM x) { return live(x)->k == pair; } int scm_is_exact_integer(SCM x) { return live(x)->k == integer; } int scm_is_eq(SCM a, SCM b) { return live(a) == live(b); } int scm_is_string(SCM x) { return live(x)->k == text; } int scm_is_symbol(SCM x) { return live(x)->k == symbol; } int scm_is_false(SCM x) { return live(x) == &f || x == &nil; } int scm_is_true(SCM x) { return !scm_is_false(x); } int scm_is_bool(SCM x) { return live(x) == &t || x == &f; } int scm_is_bytevector(SCM x) { return live(x)->k == bytevector; }
SCM scm_equal_p(SCM a, SCM b) {
  if (live(a) == live(b)) return &t; if (a->k != b->k || a->at.size() != b->at.size()) return &f;
  switch (a->k) { case integer: return scm_from_bool(a->num == b->num && a->str == b->str); case text: return scm_from_bool(a->str == b->str); case bytevector: return scm_from_bool(a->bv == b->bv); case pair: return scm_from_bool(scm_equal_p(a->at[0], b->at[0]) == &t && scm_equal_p(a->at[1], b->at[1]) == &t); default: return &f; }
}
// ---- bytevectors -----------------------------------------------------------------------
SCM scm_c_make_bytevector(std::size_t n) { obj *o = new obj(bytevector); o->bv.resize(n); return o; }
signed char *vp_bv(SCM x) { live(x); vp_assert(x->k == bytevector, "the bytes of something that is no bytevector"); return x->bv.data(); } std::size_t vp_bvlen(SCM x) { live(x); vp_assert(x->k == bytevector, "the bytes of something that is no bytevector"); return x->bv.size(); } std::size_t scm_c_bytevector_length(SCM x) { return need(x, bytevector, "bytevector-length")->bv.size(); }
// ---- control ---------------------------------------------------------------------------
void scm_error(SCM key, const char *w, const char *msg, SCM, SCM) { throw error{key, w ? w : "", msg}; }
void scm_misc_error(const char *w, const char *msg, SCM) { throw error{&f, w, msg}; }
static std::vector<std::vector<void *>> &wind() { static std::vector<std::vector<void *>> *v = new std::vector<std::vector<void *>>; return *v; }
void scm_dynwind_begin(scm_t_dynwind_flags) { wind().emplace_back(); }
void scm_dynwind_end() { vp_assert(wind().size() > 0, "dynwind context ended twice"); for (void *p : wind().back()) free(p); wind().pop_back(); }
void scm_dynwind_free(void *p) { vp_assert(wind().size() > 0, "outside a dynwind context"); wind().back().push_back(p); }
SCM scm_c_catch(SCM, scm_t_catch_body b, void *d, scm_t_catch_handler h, void *hd, scm_t_catch_handler, void *) { std::size_t depth = wind().size(); try { return b(d); } catch (const error &e) { while (wind().size() > depth) scm_dynwind_end(); return h(hd, e.key, &eol); } }
SCM scm_call_3(SCM p, SCM a, SCM b, SCM c) { return need(p, procedure, "apply")->fn(live(a), live(b), live(c)); }
void *scm_with_guile(void *(*p)(void *), void *d) { return p(d); }
SCM scm_open_output_string() { return &unspecified; } SCM scm_print_exception(SCM, SCM, SCM, SCM) { return &unspecified; } SCM scm_current_warning_port() { return &unspecified; } void scm_puts(const char *, SCM) { ++warnings; } SCM scm_display(SCM, SCM) { return &unspecified; } SCM scm_close_port(SCM) { return &t; }
SCM scm_c_public_variable(const char *, const char *n) { return wrong("module-variable", n); } SCM scm_c_lookup(const char *n) { return wrong("lookup", n); } SCM scm_variable_ref(SCM x) { return live(x); } SCM scm_variable_set_x(SCM, SCM) { return &unspecified; }
