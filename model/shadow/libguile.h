// A stand-in for libguile: the objects scribbu's bindings exchange with scripts.
// Scheme errors are C++ exceptions of a type of their own (Guile leaves by a long jump).
#ifndef VP_LIBGUILE_H
#define VP_LIBGUILE_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace vpguile {
  enum kind { constant, integer, text, symbol, keyword, pair, bytevector, klass, instance, procedure };
  struct obj { kind k; long long num = 0; std::string str; std::vector<obj *> at; obj *(*fn)(obj *, obj *, obj *) = 0; std::vector<signed char> bv; explicit obj(kind kk): k(kk) {} };
  struct error { obj *key; std::string where, what; };      // not a std::exception
  extern obj t, f, eol, nil, eof, undefined, unspecified;
  extern bool latin1;        // the locale's encoding: ISO-8859-1 instead of UTF-8
  obj *live(obj *x);         // the object; fails when there is none
  obj *wrong(const char *where, const char *what);
  extern std::size_t warnings;
  void bind(const char *where, obj *rest, obj *kw, obj **val);
}
typedef vpguile::obj *SCM;
typedef int scm_t_dynwind_flags; typedef int scm_t_keyword_arguments_flags; typedef int scm_t_string_failed_conversion_handler;
typedef SCM (*scm_t_catch_body)(void *); typedef SCM (*scm_t_catch_handler)(void *, SCM, SCM);
#define SCM_BOOL_T (&vpguile::t)
#define SCM_BOOL_F (&vpguile::f)
#define SCM_EOL (&vpguile::eol)
#define SCM_ELISP_NIL (&vpguile::nil)
#define SCM_EOF_VAL (&vpguile::eof)
#define SCM_UNDEFINED (&vpguile::undefined)
#define SCM_UNSPECIFIED (&vpguile::unspecified)
enum { SCM_F_DYNWIND_REWINDABLE = 1 };
enum { SCM_FAILED_CONVERSION_ERROR, SCM_FAILED_CONVERSION_QUESTION_MARK, SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE };
#define SCM_MAGIC_SNARFER
#define SCM_DEFINE(name, str, req, opt, var, args, doc) SCM name args
SCM scm_c_public_ref(const char *, const char *); SCM scm_c_public_variable(const char *, const char *); SCM scm_c_lookup(const char *);
SCM scm_make(SCM); SCM scm_class_of(SCM); bool vp_is_a(SCM, SCM); SCM vp_slot(SCM, std::size_t); void vp_set_slot(SCM, std::size_t, SCM);
#define SCM_IS_A_P(x, c) vp_is_a(x, c)
#define SCM_SLOT(x, i) vp_slot(x, i)
#define SCM_SET_SLOT(x, i, v) vp_set_slot(x, i, v)
SCM scm_slot_ref(SCM, SCM); SCM scm_slot_set_x(SCM, SCM, SCM);
SCM scm_from_utf8_string(const char *); SCM scm_from_utf8_stringn(const char *, std::size_t); SCM scm_from_locale_string(const char *); SCM scm_from_locale_stringn(const char *, std::size_t); SCM scm_from_latin1_string(const char *); SCM scm_from_latin1_stringn(const char *, std::size_t); SCM scm_from_stringn(const char *, std::size_t, const char *, int);
char *scm_to_utf8_string(SCM); char *scm_to_utf8_stringn(SCM, std::size_t *); char *scm_to_locale_string(SCM); char *scm_to_locale_stringn(SCM, std::size_t *); char *scm_to_latin1_string(SCM); char *scm_to_latin1_stringn(SCM, std::size_t *); char *scm_to_stringn(SCM, std::size_t *, const char *, int);
SCM scm_string_to_symbol(SCM); SCM scm_symbol_to_string(SCM); SCM scm_from_utf8_symbol(const char *); SCM scm_from_utf8_keyword(const char *);
SCM scm_from_int(int); SCM scm_from_uint(unsigned); SCM scm_from_uchar(unsigned char); SCM scm_from_size_t(std::size_t); SCM scm_from_uintmax(std::uintmax_t); SCM scm_from_uint32(std::uint32_t); SCM scm_from_uint64(std::uint64_t); SCM scm_from_bool(int);
int scm_to_int(SCM); unsigned scm_to_uint(SCM); unsigned char scm_to_uchar(SCM); std::size_t scm_to_size_t(SCM); std::uint32_t scm_to_uint32(SCM); std::uint64_t scm_to_uint64(SCM); int scm_to_bool(SCM);
SCM scm_cons(SCM, SCM); SCM scm_acons(SCM, SCM, SCM); SCM scm_append(SCM); SCM scm_reverse(SCM); SCM scm_list_1(SCM); SCM scm_list_2(SCM, SCM); SCM scm_list_3(SCM, SCM, SCM); SCM scm_length(SCM); SCM scm_list_ref(SCM, SCM); SCM scm_list_tail(SCM, SCM); SCM scm_car(SCM); SCM scm_cdr(SCM);
SCM scm_list_p(SCM); SCM scm_null_p(SCM); SCM scm_string_p(SCM); SCM scm_variable_p(SCM); SCM scm_equal_p(SCM, SCM); SCM scm_eq_p(SCM, SCM);
int scm_is_null(SCM); int scm_is_pair(SCM); int scm_is_exact_integer(SCM); int scm_is_eq(SCM, SCM); int scm_is_string(SCM); int scm_is_symbol(SCM); int scm_is_true(SCM); int scm_is_false(SCM); int scm_is_bool(SCM); int scm_is_bytevector(SCM);
#define scm_is_null_or_nil scm_is_null
SCM scm_c_make_bytevector(std::size_t); std::size_t scm_c_bytevector_length(SCM);
signed char *vp_bv(SCM); std::size_t vp_bvlen(SCM);
#define SCM_BYTEVECTOR_CONTENTS(x) vp_bv(x)
#define SCM_BYTEVECTOR_LENGTH(x) vp_bvlen(x)
[[noreturn]] void scm_error(SCM, const char *, const char *, SCM, SCM); [[noreturn]] void scm_misc_error(const char *, const char *, SCM);
void scm_dynwind_begin(scm_t_dynwind_flags); void scm_dynwind_end(); void scm_dynwind_free(void *);
SCM scm_c_catch(SCM, scm_t_catch_body, void *, scm_t_catch_handler, void *, scm_t_catch_handler, void *); SCM scm_call_3(SCM, SCM, SCM, SCM); void *scm_with_guile(void *(*)(void *), void *);
SCM scm_open_output_string(); SCM scm_print_exception(SCM, SCM, SCM, SCM); SCM scm_current_warning_port(); void scm_puts(const char *, SCM); SCM scm_display(SCM, SCM); SCM scm_close_port(SCM); SCM scm_variable_ref(SCM); SCM scm_variable_set_x(SCM, SCM);
template <class... A> void scm_c_export(A...) {}
// keyword, variable, ..., SCM_UNDEFINED
inline void vp_bind(const char *, SCM, SCM) {}
template <class... A> void vp_bind(const char *w, SCM rest, SCM kw, SCM *v, A... a) { vpguile::bind(w, rest, kw, v); vp_bind(w, rest, a...); }
template <class... A> void scm_c_bind_keyword_arguments(const char *w, SCM rest, scm_t_keyword_arguments_flags, A... a) { vp_bind(w, rest, a...); }
#endif
