// Frames of the three versions, made the way a program makes them.
#ifndef VP_EDIT_HH
#define VP_EDIT_HH
#include "rw.hh"
#include <map>
using namespace scribbu;
typedef id3v2_3_plus_frame::tag_alter_preservation TAP; typedef id3v2_3_plus_frame::file_alter_preservation FAP; typedef id3v2_3_plus_frame::read_only RO;
struct V2 {
  enum { ver = 2 };
  typedef id3v2_2_tag tag; typedef id3v2_2_frame base; typedef id3v2_2_text_frame text; typedef CNT count; typedef POP rating; typedef COM comment; typedef unknown_id3v2_2_frame other; typedef TXX usertext; typedef XTG cloud;
  typedef frame_id3 id; typedef UFI fileid;
  static const char *title() { return "TT2"; } static const char *artist() { return "TP1"; } static const char *cnt() { return "CNT"; } static const char *pop() { return "POP"; } static const char *com() { return "COM"; } static const char *unk() { return "ZAB"; } static const char *txx() { return "TXX"; }
  static text mk_text(const char *i, const std::string &s) { return text(id(i), s, encoding::UTF_8); }
  static count mk_count(std::size_t n) { return count(n); }
  static rating mk_rating(const std::string &m, u8 r, std::size_t n) { return rating(m, r, n); }
  static comment mk_comment(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return comment(language::eng, t, encoding::UTF_8, u, d); }
  static usertext mk_usertext(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return usertext(t, encoding::UTF_8, u, d); }
  static other mk_other(const bytes &b) { return other(id("ZAB"), b.begin(), b.end()); }
  static cloud mk_cloud(const std::string &o, const std::string &t) { return cloud(o, t); }
  static fileid mk_fileid(const bytes &b) { return fileid(b.begin(), b.end()); }
};
struct V3 {
  enum { ver = 3 };
  typedef id3v2_3_tag tag; typedef id3v2_3_frame base; typedef id3v2_3_text_frame text; typedef PCNT count; typedef POPM rating; typedef COMM comment; typedef unknown_id3v2_3_frame other; typedef TXXX usertext; typedef XTAG cloud;
  typedef frame_id4 id; typedef UFID fileid;
  static const char *title() { return "TIT2"; } static const char *artist() { return "TPE1"; } static const char *cnt() { return "PCNT"; } static const char *pop() { return "POPM"; } static const char *com() { return "COMM"; } static const char *unk() { return "ZABC"; } static const char *txx() { return "TXXX"; }
  static text mk_text(const char *i, const std::string &s) { return text(id(i), s, encoding::UTF_8); }
  static count mk_count(std::size_t n) { return count(n, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, boost::none); }
  static rating mk_rating(const std::string &m, u8 r, std::size_t n) { return rating(m, r, n, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, boost::none); }
  static comment mk_comment(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return comment(language::eng, t, encoding::UTF_8, u, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, d); }
  static usertext mk_usertext(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return usertext(t, encoding::UTF_8, u, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, d); }
  static other mk_other(const bytes &b) { return other(id("ZABC"), TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, boost::none, b.begin(), b.end()); }
  static cloud mk_cloud(const std::string &o, const std::string &t) { return cloud(o, t, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, boost::none); }
  static fileid mk_fileid(const bytes &b) { return fileid(b.begin(), b.end(), TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, boost::none); }
};
struct V4 {
  enum { ver = 4 };
  typedef id3v2_4_tag tag; typedef id3v2_4_frame base; typedef id3v2_4_text_frame text; typedef PCNT_2_4 count; typedef POPM_2_4 rating; typedef COMM_2_4 comment; typedef unknown_id3v2_4_frame other; typedef TXXX_2_4 usertext; typedef XTAG_2_4 cloud;
  typedef frame_id4 id; typedef UFID_2_4 fileid;
  static const char *title() { return "TIT2"; } static const char *artist() { return "TPE1"; } static const char *cnt() { return "PCNT"; } static const char *pop() { return "POPM"; } static const char *com() { return "COMM"; } static const char *unk() { return "ZABC"; } static const char *txx() { return "TXXX"; }
  static text mk_text(const char *i, const std::string &s) { return text(id(i), s, encoding::UTF_8, text::frame_encoding::UTF_8); }
  static count mk_count(std::size_t n) { return count(n, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none); }
  static rating mk_rating(const std::string &m, u8 r, std::size_t n) { return rating(m, r, n, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none); }
  static comment mk_comment(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return comment(language::eng, t, encoding::UTF_8, u, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none, d); }
  static usertext mk_usertext(const std::string &t, const std::string &d, use_unicode u = use_unicode::no) { return usertext(t, encoding::UTF_8, u, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, d); }
  static other mk_other(const bytes &b) { return other(id("ZABC"), TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none, b.begin(), b.end()); }
  static cloud mk_cloud(const std::string &o, const std::string &t) { return cloud(o, t, TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none); }
  static fileid mk_fileid(const bytes &b) { return fileid(b.begin(), b.end(), TAP::preserve, FAP::preserve, RO::clear, boost::none, boost::none, false, false, boost::none); }
};
// n printable ASCII characters other than blank
static std::string word(int n, const char *name) { std::string s = any_text(n, name); for (char c : s) vp_assume(c > 32 && c < 127); return s; }
// the number a counter's bytes stand for
static unsigned long long number(const bytes &b) { unsigned long long r = 0; for (char c : b) r = r << 8 | (u8)c; return r; }
#endif
