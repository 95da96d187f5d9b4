// P17: genre matching finds the closest genre and numbers map to fixed names.
#include "vp.h"
#include <scribbu/winamp-genres.hh>
#include <cstring>
#include <string>
using namespace scribbu;

static const char *const names[192] = {
  "Blues", "Classic Rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop",
  "Jazz", "Metal", "New Age", "Oldies", "Other", "Pop", "R&B", "Rap",
  "Reggae", "Rock", "Techno", "Industrial", "Alternative", "Ska", "Death Metal", "Pranks",
  "Soundtrack", "Euro-Techno", "Ambient", "Trip-Hop", "Vocal", "Jazz+Funk", "Fusion", "Trance",
  "Classical", "Instrumental", "Acid", "House", "Game", "Sound Clip", "Gospel", "Noise",
  "AlternRock", "Bass", "Soul", "Punk", "Space", "Meditative", "Instrumental Pop", "Instrumental Rock",
  "Ethnic", "Gothic", "Darkwave", "Techno-Industrial", "Electronic", "Pop-Folk", "Eurodance", "Dream",
  "Southern Rock", "Comedy", "Cult", "Gangsta", "Top 40", "Christian Rap", "Pop/Funk", "Jungle",
  "Native American", "Cabaret", "New Wave", "Psychadelic", "Rave", "Showtunes", "Trailer", "Lo-Fi",
  "Tribal", "Acid Punk", "Acid Jazz", "Polka", "Retro", "Musical", "Rock & Roll", "Hard Rock",
  "Folk", "Folk-Rock", "National Folk", "Swing", "Fast Fusion", "Bebob", "Latin", "Revival",
  "Celtic", "Bluegrass", "Avantgarde", "Gothic Rock", "Progressive Rock", "Psychedelic Rock", "Symphonic Rock", "Slow Rock",
  "Big Band", "Chorus", "Easy Listening", "Acoustic", "Humour", "Speech", "Chanson", "Opera",
  "Chamber Musice", "Sonata", "Symphony", "Booty Brass", "Primus", "Porn Groove", "Satire", "Slow Jam",
  "Club", "Tango", "Samba", "Folklore", "Ballad", "Power Ballad", "Rhytmic Soul", "Freestyle",
  "Duet", "Punk Rock", "Drum Solo", "A Capela", "Euro-House", "Dance Hall", "Goa", "Drum & Bass",
  "Club-House", "Hardcore Techno", "Terror", "Indie", "BritPop", "Negerpunk", "Polsk Punk", "Beat",
  "Christian Gangsta Rap", "Heavy Metal", "Black Metal", "Crossover", "Contemporary Christian", "Christian rock", "Merengue", "Salsa",
  "Thrash Metal", "Anime", "Jpop", "Synthpop", "Abstract", "Art Rock", "Baroque", "Bhangra",
  "Big beat", "Breakbeat", "Chillout", "Downtempo", "Dub", "EBM", "Eclectic", "Electro",
  "Electroclash", "Emo", "Experimental", "Garage", "Global", "IDM", "Illbient", "Industro-Goth",
  "Jam Band", "Krautrock", "Leftfield", "Lounge", "Math Rock", "New Romantic", "Nu-Breakz", "Post-Punk",
  "Post-Rock", "Psytrance", "Shoegaze", "Space Rock", "Trop Rock", "World Music", "Neoclassical", "Audiobook",
  "Audio theatre", "Neue Deutsche Welle", "Podcast", "Indie-Rock", "G-Funk", "Dubstep", "Garage Rock", "Psybient",
};
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// edit distance with adjacent transpositions (each character edited once), by
// definition; stops early (with a number above cap) once no cell can be <= cap
static int dist(const char *a, const std::string &b, int cap) {
  int m = strlen(a), n = b.size(), prev = 0; static int d[24][40];
  if (m - n > cap || n - m > cap) return cap + 1;
  for (int i = 0; i <= m; ++i) {
    int least = 1000;
    for (int j = 0; j <= n; ++j) {
      int v;
      if (!i || !j) v = i + j;
      else if (i - j > cap || j - i > cap) v = 1000;
      else {
        char x = low(a[i - 1]), y = low(b[j - 1]);
        v = d[i - 1][j - 1]; if (x != y) { if (d[i - 1][j] < v) v = d[i - 1][j]; if (d[i][j - 1] < v) v = d[i][j - 1]; ++v; }
        if (i > 1 && j > 1 && d[i - 2][j - 2] + 1 < v && low(a[i - 2]) == y && low(b[j - 2]) == x) v = d[i - 2][j - 2] + 1;
      }
      d[i][j] = v; if (v < least) least = v;
    }
    if (least > cap && prev > cap) return cap + 1;
    prev = least;
  }
  return d[m][n];
}
static void match(const std::string &t) {
  auto r = match_winamp_genre(t); unsigned char g = std::get<1>(r); int best = (int)vp_conc(std::get<2>(r));
  g = (unsigned char)vp_conc(g);
  vp_assert(g < 192, "no such genre"); vp_assert(std::get<0>(r) == names[g], "name is not that of the number");
  vp_assert(best <= 40 && dist(names[g], t, best) == best, "distance is not that of the reported genre");
  for (int i = 0; i < 192; ++i) vp_assert(best == 0 || dist(names[i], t, best - 1) >= best, "there is a closer genre");
  vp_observe(g);
}
extern "C" void h_names() {
  unsigned g = vp_any<unsigned char>("genre"); g = (unsigned)vp_conc(g); auto n = text_for_genre(g);
  vp_assert(bool(n) == (g < 192), "numbers below 192 and only they have names");
  if (n) { vp_assert(*n == names[g], "wrong name"); vp_cover("named"); } else vp_cover("nameless");
}
extern "C" void h_short() {
  int n = vp_choice(0, 2, "n"); std::string s(n, 0); vp_sym(s.data(), n, "text"); for (char c : s) vp_assume((unsigned char)c < 0x80);
  match(s); vp_cover("short");
}
extern "C" void h_near() {               // a genre with one or two edits
  static const unsigned char pick[] = {13, 14, 60, 188}; int g = pick[vp_choice(0, sizeof pick - 1, "genre")]; std::string s(names[g]); int n = s.size();
  int at = vp_choice(0, 2, "at") * (n - 2) / 2; char c = vp_any<char>("c"); vp_assume((unsigned char)c < 0x80);
  switch (vp_choice(0, 3, "edit")) {
  case 0: s[at] = c; break;
  case 1: s.insert(s.begin() + at, c); break;
  case 2: s[at] = s[at + 1]; s[at + 1] = c; break;
  case 3: std::swap(s[at], s[at + 1]); s[n - 1] = c; break;
  }
  match(s); vp_cover("near");
}
extern "C" void h_long() {               // texts longer than every genre
  int n = vp_choice(23, 24, "n"); std::string s(n, vp_flag("fill") ? '\x01' : 'e'); char c = vp_any<char>("c"); vp_assume((unsigned char)c < 0x80);
  s[vp_flag("last") ? n - 1 : 1] = c; match(s); vp_cover("long");
}
