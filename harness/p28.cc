// P28: names of encodings and languages mean what they say.
#include "vp.h"
#include <scribbu/charsets.hh>
#include <scribbu/framesv2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
using namespace scribbu;
using std::string;
extern "C" { extern int vp_iconv_none; extern char vp_iconv_to[], vp_iconv_from[]; extern const char *vp_locale_name; }
#ifdef VP_NATIVE
const char *vp_locale_name = "C";
namespace std { string locale::name() const { return vp_locale_name; } }
#endif
template <class T> static string shown(T x) { std::ostringstream s; s << x; return s.str(); }
template <class T> static bool understood(const string &w, T &x) { std::istringstream s(w); try { s >> x; } catch (const std::exception &) { return false; } return !s.fail(); }
static string word(int lo, int hi) { int n = vp_choice(lo, hi, "n"); string w(n, 0); vp_sym(&w[0], n, "word"); for (unsigned char c : w) vp_assume(c > 32 && c != 127); return w; }
static void settle(string &w) { for (char &c : w) c = (char)vp_conc((unsigned char)c); }      // known by now, but for the solver to find out
static string lower(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static const int N = (int)encoding::MAX_ENCODING;

// a word is the name of at most one encoding, the one listed under that name
extern "C" void h_enc_word() {
  string w = word(1, 17); encoding e; bool ok = understood(w, e);
  if (ok) { settle(w); vp_assert(lower(shown(e)) == lower(w), "a name is taken for another encoding"); vp_cover("known"); }
  else { for (int i = 0; i < N; ++i) vp_assert(shown((encoding)i) != w, "a listed encoding is not understood"); vp_cover("unknown"); }
}
// a conversion is done by the converter of that name
extern "C" void h_enc_asked() {
  static const struct { on_no_encoding r; const char *suffix; } rs[] = {{on_no_encoding::fail, ""}, {on_no_encoding::transliterate, "//TRANSLIT"}, {on_no_encoding::ignore, "//IGNORE"}};
  auto &r = rs[vp_choice(0, 2, "policy")]; encoding e = (encoding)vp_choice(0, N - 1, "encoding"); bool from = vp_flag("from"); vp_iconv_none = 1; bool failed = false; vp_iconv_to[0] = vp_iconv_from[0] = 0;
  try { if (from) convert_encoding<string>((const unsigned char *)"ab", 2, e, encoding::UTF_8, r.r); else convert_encoding("ab", encoding::UTF_8, e, false, r.r); } catch (const iconv_error &) { failed = true; }
  vp_assert(failed, "conversion without a converter"); string n = shown(e); vp_assert(n.size() && understood(n, e) && shown(e) == n, "name of an encoding not understood");
  vp_assert((from ? n : "UTF-8") == string(vp_iconv_from), "converted from another encoding"); vp_assert((from ? string("UTF-8") : n) + r.suffix == vp_iconv_to, "converted to another encoding"); vp_cover("asked");
}
extern "C" void h_lang_word() {
  string w = word(1, 4); language l; bool ok = understood(w, l);
  if (!ok) { vp_cover("no language"); return; }
  settle(w); vp_assert(w.size() == 3, "a language code of another length"); string n = shown(l); vp_assert(lower(w) == n, "a code is taken for another language");
  unsigned char c[3]; language_to_iso_639_2(l, c); vp_assert(!memcmp(c, n.data(), 3), "a language is written with another code"); vp_cover("language");
}
// ISO 639-1, with both codes of ISO 639-2 where there are two
static const char iso[] = "aa aar ab abk ae ave af afr ak aka am amh an arg ar ara as asm av ava ay aym az aze ba bak be bel bg bul bi bis bm bam bn ben bo tib/bod br bre bs bos ca cat ce che ch cha co cos cr cre cs cze/ces cu chu cv chv cy wel/cym da dan de ger/deu dv div dz dzo ee ewe el gre/ell en eng eo epo es spa et est eu baq/eus fa per/fas ff ful fi fin fj fij fo fao fr fre/fra fy fry ga gle gd gla gl glg gn grn gu guj gv glv ha hau he heb hi hin ho hmo hr hrv ht hat hu hun hy arm/hye hz her ia ina id ind ie ile ig ibo ii iii ik ipk io ido is ice/isl it ita iu iku ja jpn jv jav ka geo/kat kg kon ki kik kj kua kk kaz kl kal km khm kn kan ko kor kr kau ks kas ku kur kv kom kw cor ky kir la lat lb ltz lg lug li lim ln lin lo lao lt lit lu lub lv lav mg mlg mh mah mi mao/mri mk mac/mkd ml mal mn mon mr mar ms may/msa mt mlt my bur/mya na nau nb nob nd nde ne nep ng ndo nl dut/nld nn nno no nor nr nbl nv nav ny nya oc oci oj oji om orm or ori os oss pa pan pi pli pl pol ps pus pt por qu que rm roh rn run ro rum/ron ru rus rw kin sa san sc srd sd snd se sme sg sag si sin sk slo/slk sl slv sm smo sn sna so som sq alb/sqi sr srp ss ssw st sot su sun sv swe sw swa ta tam te tel tg tgk th tha ti tir tk tuk tl tgl tn tsn to ton tr tur ts tso tt tat tw twi ty tah ug uig uk ukr ur urd uz uzb ve ven vi vie vo vol wa wln wo wol xh xho yi yid yo yor za zha zh chi/zho zu zul bh bih ";
static bool right(const string &lang, const string &code) {     // may this be the code of that language?
  for (const char *p = iso; *p;) {
    const char *q = p + 3; bool same = p[0] == lang[0] && p[1] == lang[1], two = q[3] == '/';
    if (same) return code == string(q, 3) || (two && code == string(q + 4, 3));
    p = q + (two ? 8 : 4);
  }
  return code == "und";
}
static const char *vars[] = {"LANGUAGE", "LC_ALL", "LANG"}, *ends[] = {"", "_XX", ".UTF-8", "_XX.ISO8859-1", "@x"};
static string code(int v) {            // of a comment that is given no language; it follows the headers and the mark of the encoding
  std::ostringstream os; unsigned char c[3];
  switch (v) { case 2: { id3v2_2_tag t(0); t.add_comment("x"); t.write(os, false); break; } case 3: { id3v2_3_tag t(0); t.add_comment("x"); t.write(os, false); break; } case 4: { id3v2_4_tag t(0); t.add_comment("x"); t.write(os, false); break; } default: language_to_iso_639_2(language::from_locale, c); return string((char *)c, 3); }
  string raw = os.str(); size_t at = v == 2 ? 17 : 21; vp_assert(raw.size() > at + 3, "comment not written"); return raw.substr(at, 3);
}
extern "C" void h_lang_two() {
  for (auto v : vars) unsetenv(v); string l(2, 0); vp_sym(&l[0], 2, "language"); for (char c : l) vp_assume(c >= 'a' && c <= 'z'); settle(l);
  setenv(vars[vp_choice(0, 2, "variable")], (l + ends[vp_choice(0, 4, "ending")]).c_str(), 1); vp_assert(right(l, code(5)), "another language than the locale's"); vp_cover("two letters");
}
extern "C" void h_lang_three() {
  for (auto v : vars) unsetenv(v); string l(3, 0); vp_sym(&l[0], 3, "language"); for (char c : l) vp_assume(c >= 'a' && c <= 'z'); language x; bool known = understood(l, x); if (known) settle(l);
  setenv("LANG", (l + ends[vp_choice(0, 4, "ending")]).c_str(), 1); string c = code(5); vp_assert(c == (known ? l : "und"), "another language than the locale's"); vp_cover("three letters");
}
extern "C" void h_lang_comment() {     // the first that says anything counts
  static const char *langs[] = {"de_DE", "fil_PH.UTF-8", "C.UTF-8", "POSIX", "", nullptr}; string first;
  for (auto v : vars) { int k = vp_choice(0, 5, "value"); if (!langs[k]) { unsetenv(v); continue; } setenv(v, langs[k], 1); if (first.empty()) first = langs[k]; }
  string c = code(vp_choice(2, 5, "version")); vp_assert(first[0] == 'd' ? c == "deu" || c == "ger" : first[0] == 'f' ? c == "fil" : c == "und", "comment in another language than the locale's"); vp_cover("comment");
}
extern "C" void h_locale_enc() {
  static const struct { const char *n; encoding e; } names[] = {{"UTF-8", encoding::UTF_8}, {"utf8", encoding::UTF_8}, {"ASCII", encoding::ASCII}, {"US-ASCII", encoding::ASCII}, {"ISO8859-1", encoding::ISO_8859_1}, {"ISO8859-2", encoding::ISO_8859_2}, {"ISO8859-3", encoding::ISO_8859_3}, {"ISO8859-4", encoding::ISO_8859_4}, {"ISO8859-5", encoding::ISO_8859_5}, {"ISO8859-7", encoding::ISO_8859_7}, {"ISO8859-9", encoding::ISO_8859_9}, {"ISO8859-10", encoding::ISO_8859_10}, {"ISO8859-13", encoding::ISO_8859_13}, {"ISO8859-14", encoding::ISO_8859_14}, {"ISO8859-15", encoding::ISO_8859_15}, {"ISO8859-16", encoding::ISO_8859_16}, {"CP1131", encoding::CP1131}, {"CP1133", encoding::CP1133}, {"CP1250", encoding::CP1250}, {"CP1251", encoding::CP1251}, {"CP1252", encoding::CP1252}, {"CP1253", encoding::CP1253}, {"CP1254", encoding::CP1254}, {"CP1255", encoding::CP1255}, {"CP1256", encoding::CP1256}, {"CP1257", encoding::CP1257}, {"CP1258", encoding::CP1258}, {"CP850", encoding::CP850}, {"CP862", encoding::CP862}, {"CP866", encoding::CP866}, {"CP874", encoding::CP874}, {"CP932", encoding::CP932}, {"CP936", encoding::CP936}, {"CP949", encoding::CP949}, {"CP950", encoding::CP950}};
  const int n = sizeof names / sizeof *names; int i = vp_choice(0, n + 1, "name"); string lang = vp_flag("plain") ? "en_US" : "de", name = lang, w; 
  if (i < n) name += string(".") + names[i].n; else if (i == n) { w = word(1, 5); for (char c : w) vp_assume(c != '.' && c != '@'); name += "." + w; }
  vp_locale_name = name.c_str(); bool ok = true; encoding e = encoding::JAVA; try { e = encoding_from_system_locale(); } catch (const std::exception &) { ok = false; } vp_locale_name = "C";
  if (i < n) { vp_assert(ok && e == names[i].e, "encoding of the locale not recognised"); vp_cover("encoding"); }
  else if (i > n) { vp_assert(ok && e == encoding::UTF_8, "locale that names no encoding is not taken to be UTF-8"); vp_cover("no encoding"); }
  else if (ok) { settle(w); auto plain = [](const string &s) { string r; for (char c : lower(s)) if (c != '-') r += c; return r; }; string p = plain(w), q = plain(shown(e)); vp_assert(q == p || "us" + q == p || p == "iso" + q, "encoding of the locale taken for another"); vp_cover("encoding word"); }
  else vp_cover("no such encoding");
}
