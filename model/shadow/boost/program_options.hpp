// Stand-in for the command-line parser, which is only installed as a binary: the default (Unix) style of option,
// the environment given by the harness.  Values are converted with the real lexical_cast.
#ifndef VP_SHADOW_PROGRAM_OPTIONS
#define VP_SHADOW_PROGRAM_OPTIONS
#include <boost/lexical_cast.hpp>
#include <boost/any.hpp>
#include <boost/function.hpp>
#include <functional>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace boost { namespace program_options {
  // the environment: what the harness says it is
  inline std::vector<std::pair<std::string, std::string>> &vp_environment() { static std::vector<std::pair<std::string, std::string>> e; return e; }
  class error: public std::logic_error { public: error(const std::string &s): std::logic_error(s) {} };
  class error_with_option_name: public error { public: error_with_option_name(const std::string &s): error(s) {} };
  class unknown_option: public error_with_option_name { public: unknown_option(const std::string &s = ""): error_with_option_name("unrecognised option '" + s + "'") {} };
  class ambiguous_option: public error_with_option_name { public: ambiguous_option(const std::string &s = ""): error_with_option_name("option '" + s + "' is ambiguous") {} };
  class required_option: public error_with_option_name { public: required_option(const std::string &s): error_with_option_name("the option '" + s + "' is required but missing") {} };
  class multiple_occurrences: public error_with_option_name { public: multiple_occurrences(): error_with_option_name("option cannot be specified more than once") {} };
  class validation_error: public error_with_option_name { public: enum kind_t { multiple_values_not_allowed = 30, at_least_one_value_required, invalid_bool_value, invalid_option_value, invalid_option }; validation_error(kind_t, const std::string &s = "", const std::string & = "", int = 0): error_with_option_name(s) {} };
  class invalid_option_value: public validation_error { public: invalid_option_value(const std::string &s): validation_error(validation_error::invalid_option_value, "the argument ('" + s + "') is invalid") {} };
  class invalid_bool_value: public validation_error { public: invalid_bool_value(const std::string &s): validation_error(validation_error::invalid_bool_value, "the argument ('" + s + "') is invalid") {} };
  class invalid_syntax: public error_with_option_name { public: invalid_syntax(const std::string &s): error_with_option_name(s) {} };
  class invalid_command_line_syntax: public invalid_syntax { public: invalid_command_line_syntax(const std::string &s): invalid_syntax(s) {} };
  class too_many_positional_options_error: public error { public: too_many_positional_options_error(): error("too many positional options have been specified on the command line") {} };
  class reading_file: public error { public: reading_file(const char *f): error(std::string("can not read options configuration file '") + f + "'") {} };
  // ---- values
  class variable_value {
  public:
    variable_value() {}
    template <class T> const T &as() const { if (!p_ || tag_ != &id<T>) throw boost::bad_any_cast(); return *static_cast<const T *>(p_.get()); }
    template <class T> T &as() { if (!p_ || tag_ != &id<T>) throw boost::bad_any_cast(); return *static_cast<T *>(p_.get()); }
    bool empty() const { return !p_; } bool defaulted() const { return defaulted_; }
    template <class T> void vp_set(const T &x, bool d) { p_ = std::make_shared<T>(x); tag_ = &id<T>; defaulted_ = d; }
  private:
    template <class T> static inline char id = 0;
    std::shared_ptr<void> p_; const char *tag_ = 0; bool defaulted_ = false;
  };
  template <class T> struct vp_conv { static T of(const std::string &s) { try { return boost::lexical_cast<T>(s); } catch (const boost::bad_lexical_cast &) { throw invalid_option_value(s); } } };
  template <> struct vp_conv<std::string> { static std::string of(const std::string &s) { return s; } };
  template <> struct vp_conv<bool> { static bool of(const std::string &s) { std::string t; for (char c : s) t += c >= 'A' && c <= 'Z' ? char(c + 32) : c; if (t.empty() || t == "on" || t == "yes" || t == "1" || t == "true") return true; if (t == "off" || t == "no" || t == "0" || t == "false") return false; throw invalid_bool_value(s); } };
  template <class T> struct vp_parse { static void into(variable_value &v, const std::vector<std::string> &s) { if (!v.empty()) throw multiple_occurrences(); if (s.size() > 1) throw validation_error(validation_error::multiple_values_not_allowed); if (s.empty() && !std::is_same<T, bool>::value) throw validation_error(validation_error::at_least_one_value_required); v.vp_set<T>(vp_conv<T>::of(s.empty() ? std::string() : s[0]), false); } };
  template <class T> struct vp_parse<std::vector<T>> { static void into(variable_value &v, const std::vector<std::string> &s) { std::vector<T> r; if (!v.empty()) r = v.as<std::vector<T>>(); for (auto &x : s) r.push_back(vp_conv<T>::of(x)); v.vp_set(r, false); } };
  class value_semantic {
  public:
    virtual ~value_semantic() {} virtual unsigned min_tokens() const = 0; virtual unsigned max_tokens() const = 0; virtual bool is_composing() const = 0; virtual bool is_required() const = 0;
    virtual void vp_into(variable_value &, const std::vector<std::string> &) const = 0; virtual bool vp_default(variable_value &) const = 0; virtual void vp_notify(const variable_value &) const = 0;
  };
  template <class T> class typed_value: public value_semantic {
    std::shared_ptr<T> def_, imp_; T *store_; bool composing_ = false, multi_ = false, zero_ = false, required_ = false; std::function<void(const T &)> f_;
  public:
    explicit typed_value(T *s): store_(s) {}
    typed_value *default_value(const T &v) { def_ = std::make_shared<T>(v); return this; } typed_value *default_value(const T &v, const std::string &) { return default_value(v); } typed_value *implicit_value(const T &v) { imp_ = std::make_shared<T>(v); return this; } typed_value *implicit_value(const T &v, const std::string &) { return implicit_value(v); }
    typed_value *value_name(const std::string &) { return this; } typed_value *notifier(std::function<void(const T &)> f) { f_ = f; return this; } typed_value *composing() { composing_ = true; return this; } typed_value *multitoken() { multi_ = true; return this; } typed_value *zero_tokens() { zero_ = true; return this; } typed_value *required() { required_ = true; return this; }
    unsigned min_tokens() const override { return zero_ || imp_ ? 0 : 1; } unsigned max_tokens() const override { return multi_ ? 32000 : zero_ ? 0 : 1; } bool is_composing() const override { return composing_; } bool is_required() const override { return required_; }
    void vp_into(variable_value &v, const std::vector<std::string> &s) const override { if (imp_ && s.empty()) v.vp_set<T>(*imp_, false); else vp_parse<T>::into(v, s); }
    bool vp_default(variable_value &v) const override { if (!def_) return false; v.vp_set<T>(*def_, true); return true; } void vp_notify(const variable_value &v) const override { if (store_) *store_ = v.as<T>(); if (f_) f_(v.as<T>()); }
  };
  template <class T> typed_value<T> *value(T *p) { return new typed_value<T>(p); } template <class T> typed_value<T> *value() { return value<T>((T *)0); }
  inline typed_value<bool> *bool_switch(bool *p) { auto *r = new typed_value<bool>(p); r->default_value(false); r->zero_tokens(); return r; } inline typed_value<bool> *bool_switch() { return bool_switch(0); }
  // ---- descriptions
  class option_description {
    std::string long_, short_; std::shared_ptr<const value_semantic> s_;
  public:
    option_description(const char *n, const value_semantic *s): s_(s) { std::string x(n); std::size_t k = x.find(','); if (k == std::string::npos) long_ = x; else { long_ = x.substr(0, k); short_ = "-" + x.substr(k + 1, 1); } }
    const std::string &long_name() const { return long_; } const std::string &vp_short() const { return short_; } const std::string &vp_key() const { return long_.empty() ? short_ : long_; } std::shared_ptr<const value_semantic> semantic() const { return s_; }
  };
  class options_description; class options_description_easy_init { options_description *o_; public: explicit options_description_easy_init(options_description *o): o_(o) {} options_description_easy_init &operator()(const char *n, const char *d); options_description_easy_init &operator()(const char *n, const value_semantic *s); options_description_easy_init &operator()(const char *n, const value_semantic *s, const char *d); };
  class options_description {
    std::vector<std::shared_ptr<option_description>> v_;
  public:
    options_description(unsigned = 80, unsigned = 40) {} options_description(const std::string &, unsigned = 80, unsigned = 40) {}
    void add(std::shared_ptr<option_description> d) { v_.push_back(d); } options_description &add(const options_description &o) { for (auto &d : o.v_) v_.push_back(d); return *this; } options_description_easy_init add_options() { return options_description_easy_init(this); }
    const std::vector<std::shared_ptr<option_description>> &options() const { return v_; }
    // "-x" is a short name, anything else a long one, maybe abbreviated
    const option_description *find_nothrow(const std::string &n, bool approx) const {
      const option_description *full = 0, *part = 0; int nf = 0, np = 0;
      for (auto &d : v_) { bool f = n == d->long_name() || (n.size() && n == d->vp_short()); if (f) { full = d.get(); ++nf; } else if (approx && n.size() && n[0] != '-' && d->long_name().compare(0, n.size(), n) == 0) { part = d.get(); ++np; } }
      if (nf > 1) throw ambiguous_option(n); if (nf) return full; if (np > 1) throw ambiguous_option(n); return part;
    }
    const option_description &find(const std::string &n, bool approx) const { const option_description *d = find_nothrow(n, approx); if (!d) throw unknown_option(n); return *d; }
  };
  inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s) { o_->add(std::make_shared<option_description>(n, s)); return *this; } inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s, const char *) { return (*this)(n, s); }
  inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const char *) { auto *r = new typed_value<std::string>(0); r->zero_tokens(); return (*this)(n, r); }
  inline std::ostream &operator<<(std::ostream &os, const options_description &) { return os; }
  class positional_options_description {
    std::vector<std::string> n_; std::string rest_;
  public:
    positional_options_description &add(const char *n, int k) { if (k == -1) rest_ = n; else while (k-- > 0) n_.push_back(n); return *this; }
    unsigned max_total_count() const { return rest_.empty() ? n_.size() : 0xffffffffu; } const std::string &name_for_position(unsigned i) const { return i < n_.size() ? n_[i] : rest_; }
  };
  // ---- parsing
  template <class C> struct basic_option { std::string string_key; int position_key = -1; std::vector<std::basic_string<C>> value, original_tokens; bool unregistered = false, case_insensitive = false; };
  typedef basic_option<char> option;
  template <class C> struct basic_parsed_options { explicit basic_parsed_options(const options_description *d): description(d) {} std::vector<basic_option<C>> options; const options_description *description; };
  typedef basic_parsed_options<char> parsed_options;
  class command_line_parser {
    std::vector<std::string> args_; const options_description *d_ = 0; const positional_options_description *p_ = 0; bool unreg_ = false;
    static bool looks(const std::string &t) { return t.size() >= 2 && t[0] == '-' && (t[1] != '-' || t.size() >= 3); }
  public:
    explicit command_line_parser(const std::vector<std::string> &a): args_(a) {} command_line_parser(int argc, const char *const argv[]): args_(argv + (argc ? 1 : 0), argv + argc) {}
    command_line_parser &options(const options_description &d) { d_ = &d; return *this; } command_line_parser &positional(const positional_options_description &p) { p_ = &p; return *this; } command_line_parser &allow_unregistered() { unreg_ = true; return *this; }
    parsed_options run() {
      parsed_options r(d_); std::size_t i = 0; bool only = false; unsigned pos = 0;
      auto finish = [&](option o, const std::string &name) {        // takes the tokens following when the option wants them
        const option_description *d = d_->find_nothrow(name, true); if (!d) { if (!unreg_) throw unknown_option(name); o.string_key = name; o.unregistered = true; r.options.push_back(o); return; }
        o.string_key = d->vp_key(); unsigned mn = d->semantic()->min_tokens(), mx = d->semantic()->max_tokens();
        if (o.value.size() + (args_.size() - i) < mn) throw invalid_command_line_syntax("the required argument for option '" + name + "' is missing");
        if (o.value.size() && mx == 0) throw invalid_command_line_syntax("option '" + name + "' does not take any arguments");
        mn = o.value.size() <= mn ? mn - o.value.size() : 0;
        while (i < args_.size() && mn--) { const std::string &t = args_[i]; if (looks(t) && t[1] == '-' && t.find('=') == t.size() - 1) throw invalid_command_line_syntax("the argument should follow immediately after the equal sign"); if (looks(t) && d_->find_nothrow(t, true)) throw invalid_command_line_syntax("the required argument for option '" + name + "' is missing"); o.value.push_back(t); o.original_tokens.push_back(t); ++i; }
        r.options.push_back(o);
      };
      auto positional = [&](option o) { o.position_key = only ? 0x7fffffff : 0; r.options.push_back(o); };
      while (i < args_.size()) {
        std::string t = args_[i++];
        if (!only && t == "--") { only = true; continue; }
        if (only || !looks(t)) { option o; o.value.push_back(t); o.original_tokens.push_back(t); positional(o); continue; }
        if (t[1] == '-') { option o; std::size_t k = t.find('='); std::string n = t.substr(2, k == std::string::npos ? t.npos : k - 2); if (k != std::string::npos) { if (k + 1 == t.size()) throw invalid_command_line_syntax("the argument for option '" + n + "' should follow immediately after the equal sign"); o.value.push_back(t.substr(k + 1)); } o.original_tokens.push_back(t); if (n.size()) finish(o, n); else positional(o); continue; }
        std::string rest = t.substr(2), n = t.substr(0, 2);
        for (;;) {                                                  // switches may be run together
          option o; const option_description *d = d_->find_nothrow(n, false);
          if (d && rest.size() && d->semantic()->max_tokens() == 0) { finish(o, n); n = "-" + rest.substr(0, 1); rest.erase(0, 1); continue; }
          if (rest.size()) o.value.push_back(rest); o.original_tokens.push_back(t); finish(o, n); break;
        }
      }
      for (std::size_t k = 0; k < r.options.size(); ++k) {          // an option that may have a value takes the argument following
        if (r.options[k].string_key.empty() || r.options[k].unregistered) continue; const option_description *d = d_->find_nothrow(r.options[k].string_key, false); if (!d) continue; unsigned mn = d->semantic()->min_tokens(), mx = d->semantic()->max_tokens(); if (mn >= mx) continue;
        while (r.options[k].value.size() < mx && k + 1 < r.options.size() && r.options[k + 1].string_key.empty() && r.options[k + 1].position_key != 0x7fffffff) { r.options[k].value.push_back(r.options[k + 1].value[0]); r.options[k].original_tokens.push_back(r.options[k + 1].original_tokens[0]); r.options.erase(r.options.begin() + k + 1); }
      }
      for (auto &o : r.options) if (o.string_key.empty()) { o.position_key = pos; if (p_) { if (pos >= p_->max_total_count()) throw too_many_positional_options_error(); o.string_key = p_->name_for_position(pos); } ++pos; }
      return r;
    }
  };
  inline parsed_options parse_environment(const options_description &d, const std::function<std::string(std::string)> &f) { parsed_options r(&d); for (auto &e : vp_environment()) { std::string n = f(e.first); if (n.size()) { option o; o.string_key = n; o.value.push_back(e.second); r.options.push_back(o); } } return r; }
  class variables_map: public std::map<std::string, variable_value> {
    std::set<std::string> final_, required_; std::map<std::string, std::shared_ptr<const value_semantic>> sem_;
    friend void store(const parsed_options &, variables_map &, bool);
  public:
    const variable_value &operator[](const std::string &n) const { static const variable_value none; auto i = find(n); return i == end() ? none : i->second; }
    void notify() { for (auto &n : required_) if ((*this)[n].empty()) throw required_option(n); for (auto &x : *this) { auto i = sem_.find(x.first); if (i != sem_.end()) i->second->vp_notify(x.second); } }
  };
  inline void store(const parsed_options &o, variables_map &m, bool = false) {
    std::set<std::string> fresh; std::map<std::string, variable_value> &raw = m;
    for (auto &x : o.options) {
      if (x.string_key.empty() || x.unregistered || m.final_.count(x.string_key)) continue;
      const option_description &d = o.description->find(x.string_key, false); variable_value &v = raw[x.string_key]; if (v.defaulted()) v = variable_value();
      d.semantic()->vp_into(v, x.value); m.sem_[x.string_key] = d.semantic(); if (!d.semantic()->is_composing()) fresh.insert(x.string_key);
    }
    m.final_.insert(fresh.begin(), fresh.end());
    for (auto &d : o.description->options()) { const std::string &k = d->vp_key(); if (k.empty()) continue; if (!raw.count(k)) { variable_value v; if (d->semantic()->vp_default(v)) { raw[k] = v; m.sem_[k] = d->semantic(); } } if (d->semantic()->is_required()) m.required_.insert(k); }
  }
  inline void notify(variables_map &m) { m.notify(); }
} }
#endif
