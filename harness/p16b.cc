// P16: whole templates, parsed by the generated scanner and parser and applied to a file.
#include "p16.hh"
#include <scribbu/id3v2-utils.hh>
#include <filesystem>
#include "shadow/vpfs.hh"
static bool special(char c) { return c == '?' || c == '%' || c == ':' || c == '&' || c == '(' || c == ')' || c == '=' || c == '\\'; }
static str v2_text, v1_text; static const char *const NAME = "x.mp3";
static void make_file(const str &v2, const str &v1) {
  str f = raw_frame(3, "TPE1", str(1, '\0') + v2) + raw_frame(3, "TALB", str(1, '\0') + "the  al") + raw_frame(3, "TIT2", str(1, '\0') + "the  ti") + raw_frame(3, "TCON", str(1, '\0') + "the  co") + raw_frame(3, "TENC", str(1, '\0') + "the  en") + raw_frame(3, "TYER", str(1, '\0') + "1987");
  auto pad = [](str s, size_t n) { s.resize(n, '\0'); return s; };
  vpfs::put(NAME, raw_tag(3, f) + "aud" + "TAG" + pad("the  t1", 30) + pad(v1, 30) + pad("the  l1", 30) + "1988" + str(30, '\0') + char(5)); v2_text = v2; v1_text = v1;
}
static str run(const str &t) { template_processor p(t); return p(std::filesystem::path(NAME)); }
// text is copied; a backslash takes the meaning from the character after it
extern "C" void h_literal(void) {
  str t = any_text(vp_choice(1, 2, "n"), "t"), q; for (char c : t) { vp_assume(c); bool sp = special(c); if (sp) q += '\\'; q += c; }
  vpfs::put(NAME, raw_tag(3, raw_frame(3, "TPE1", str(1, '\0') + "a"))); vp_assert(run(q + "%A") == t + "A", "template text is copied"); vp_cover("literal");
}
// any template either parses or is refused; afterwards templates still work
extern "C" void h_any(void) {
  static const char *const pre[] = {"", "%", "%(", "%(artist", "%(artist:", "%(artist:the=", "(%A", "%(size:base=hex"};
  str t = pre[vp_choice(0, 7, "pre")] + any_text(vp_choice(0, 2, "n"), "t"); vpfs::put(NAME, raw_tag(3, raw_frame(3, "TPE1", str(1, '\0') + "ab"))); str got; bool ok = true;
  try { got = run(t); } catch (const scribbu::error &) { ok = false; }
  if (ok) vp_cover("accepted"); else vp_cover("refused");
  vp_assert(run("%A-") == "Ab-", "a template works whatever was parsed before");
}
struct opt { const char *text; int pref; the_xform the; capitalization cap; bool cmp; const char *rep; };
static const the_xform ts = the_xform::make_suffix, tp = the_xform::make_prefix; static const capitalization cc = capitalization::capitalize, cu = capitalization::all_upper, cl = capitalization::all_lower;
static const opt opts[] = {{"", 0, ts, cc, false, ""}, {":prefer-v2", 0, ts, cc, false, ""}, {":prefer-v1", 1, ts, cc, false, ""}, {":v2-only", 2, ts, cc, false, ""}, {":v1-only", 3, ts, cc, false, ""},
  {":the", 0, ts, cc, false, ""}, {":the=suffix", 0, ts, cc, false, ""}, {":the=prefix", 0, tp, cc, false, ""}, {":cap=all-upper", 0, ts, cu, false, ""}, {":cap=all-lower", 0, ts, cl, false, ""}, {":cap", 0, ts, cc, false, ""}, {":cap=capitalize", 0, ts, cc, false, ""}, {":capitalization=all-upper", 0, ts, cu, false, ""},
  {":compress", 0, ts, cc, true, ""}, {":ws=_", 0, ts, cc, false, "_"}, {":ws=\\&=", 0, ts, cc, false, 0}, {":v1-only&the=prefix&cap=all-upper&ws=-&output=ascii&v1-encoding=iso-8859-1", 3, tp, cu, false, "-"}, {":compress&cap=all-lower&prefer-v1", 1, ts, cl, true, ""},
  {":v1-encoding=auto", 0, ts, cc, false, ""}, {":v1-encoding=ascii&v1-only", 3, ts, cc, false, ""}, {":v1-encoding=cp1252", 0, ts, cc, false, ""}, {":v1-encoding=utf-8&v1-only", 3, ts, cc, false, ""}, {":v1-encoding=utf-16-be", 0, ts, cc, false, ""}, {":v1-encoding=utf-16-le", 0, ts, cc, false, ""}, {":v1-encoding=utf-32", 0, ts, cc, false, ""}, {":output=utf-8", 0, ts, cc, false, ""}, {":output=cp1252", 0, ts, cc, false, ""}, {":output=iso-8859-1", 0, ts, cc, false, ""}};
// the artist with every documented option, one arbitrary character in each tag's text
extern "C" void h_tag_options(void) {
  int k = vp_choice(0, sizeof opts / sizeof *opts - 1, "opt"); const opt &o = opts[k]; vp_assume(o.rep);
  static const char *const head[] = {"the  ", "a, "}; str a = any_text(1, "a"), b = any_text(1, "b"); vp_assume(a[0] > ' ' && b[0] > ' ');
  str v2 = head[vp_choice(0, 1, "head2")] + a + ", The", v1 = head[vp_choice(0, 1, "head1")] + b; make_file(v2, v1);
  str src = o.pref == 1 || o.pref == 3 ? v1 : v2, want = ref_ws(ref_cap(ref_the(src, o.the), o.cap), o.cmp, o.rep);
  vp_assert(run("<%(artist" + str(o.text) + ")>") == "<" + want + ">", "documented options have the documented effect"); vp_cover("tag options");
}
// every replacement, in both forms
extern "C" void h_names(void) {
  static const struct { const char *t, *want; } T[] = {{"%L", "Al, The"}, {"%(album)", 0}, {"%A", "Q"}, {"%(artist)", "Q"}, {"%G", 0}, {"%(content-type)", 0}, {"%(genre)", 0}, {"%e", 0}, {"%(encoded-by)", 0}, {"%T", 0}, {"%(title)", 0}, {"%Y", "1987"}, {"%(year)", "1987"}, {"%(year:yy)", "87"}, {"%(year:yyyy)", "1987"},
    {"%b", "x"}, {"%(basename)", "x"}, {"%(file-basename)", "x"}, {"%E", ".mp3"}, {"%(extension)", ".mp3"}, {"%(file-extension)", ".mp3"}, {"%(basename:cap=all-upper)", "X"}, {"%(extension:cap=all-upper)", ".MP3"}, {"(%(artist)-)?", "Q-"}, {"\\(%(artist)\\)", "(Q)"}};
  static const char *const who[] = {" al, The", " co, The", " en, The", " ti, The"};
  int k = vp_choice(0, sizeof T / sizeof *T - 1, "t"); str v = any_text(1, "v"); vp_assume(v[0] > ' ' && v[0] < 127); make_file(v, "b");
  const char *w = T[k].want; int kind = k < 2 ? 0 : k < 7 ? 1 : k < 9 ? 2 : 3;
  str want = !w || k == 0 ? str(who[kind]) : str(w); for (char &c : want) if (c == 'Q') c = up(v[0]);
  vp_assert(run(T[k].t) == want, "every replacement gives its text"); vp_cover("names");
}
// size and checksum in every base and case
extern "C" void h_numbers(void) {
  static const struct { const char *o; bool hex, up; } O[] = {{"", false, false}, {":base=decimal", false, false}, {":base=hex", true, false}, {":base=hex&hex-case=U", true, true}, {":base=hex&hex-case=L", true, false}, {":hex-case=U&base=hex", true, true}};
  int k = vp_choice(0, 5, "o"); bool sz = vp_flag("size"); str body = sz ? str(vp_choice(0, 300, "len"), 'x') : any_text(1, "b"); vpfs::put(NAME, body);
  str got = run(str(sz ? "%(size" : "%(md5") + O[k].o + ")"), want; const char *dig = O[k].up ? "0123456789ABCDEF" : "0123456789abcdef"; bool hex = O[k].hex;
  if (sz) { unsigned n = body.size(); do { want = dig[n % (hex ? 16 : 10)] + want; n /= hex ? 16 : 10; } while (n); }
  else { std::istringstream in(body); track_data t(in); unsigned char d[16]; t.get_md5(d); for (unsigned char c : d) if (hex) { want += dig[c >> 4]; want += dig[c & 15]; } else { if (c > 99) want += char('0' + c / 100); if (c > 9) want += char('0' + c / 10 % 10); want += char('0' + c % 10); } }
  vp_assert(got == want, "sizes and checksums are printed in the base and case asked for"); vp_cover("numbers");
}
