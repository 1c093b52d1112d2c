// Every byte in every spelling: a one-character rule whose member (or range end points) runs over
// the bytes, against the set it denotes, for every input character.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "sym.h"
#include <string>
static std::string hex(unsigned c, bool up) { const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef"; std::string s = "\\x"; if (c > 15 || up) s += d[c >> 4]; s += d[c & 15]; return s; }
static std::string oct(unsigned c) { std::string s = "\\"; s += '0' + (c >> 6); s += '0' + (c >> 3 & 7); s += '0' + (c & 7); return s; }
static bool alnum(unsigned c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool member(const bool* s, unsigned char c) { return s[c]; }
void harness() {
  static const unsigned char D[] = { 0, 9, 10, 31, 33, 47, 48, 57, 64, 65, 70, 90, 91, 96, 97, 102, 122, 123, 127, 128, 200, 254, 255 };
  unsigned forms = sym_param("forms", 0xffff), list[16], n = 0; for (unsigned i = 0; i < 16; ++i) if (forms >> i & 1) list[n++] = i;
  unsigned f = list[sym_choice(n)], ic = sym_param("icase", 0); unsigned c, d = 0; bool two = f == 3 || f == 4 || f == 9 || f == 14;
  unsigned part = sym_param("parts", 1), p0 = sym_param("p0", 0);
  if (two) { c = D[sym_choice(sizeof D)]; d = D[sym_choice(sizeof D)]; } else { c = sym_choice(256 / part) * part + p0; }
  bool S[256] = {}; bool neg = false, rej = false; std::string x;
  // characters that mean something else unescaped outside / inside brackets
  bool meta = c == 0 || strchr("()[]{}|*+?.\\\"/^$", c), inmeta = c == 0 || strchr("[]^\\-", c), dmeta = d == 0 || strchr("[]^\\-", d);
  switch (f) {
  case 0: if (alnum(c)) { sym_cover("n/a"); return; } x = std::string("\\") + (char)c; if (!c) { sym_cover("n/a"); return; } break;
  case 1: x = "[" + hex(c, false) + "]"; break;
  case 2: x = "[^" + hex(c, true) + "]"; neg = true; break;
  case 3: x = "[" + hex(c, true) + "-" + hex(d, false) + "]"; break;
  case 4: x = "[^" + oct(c) + "-" + hex(d, true) + "]"; neg = true; break;
  case 5: if (c == '"' || c == '\\' || !c) { sym_cover("n/a"); return; } x = std::string("\"") + (char)c + "\""; break;
  case 6: x = hex(c, false); break;
  case 7: x = oct(c); break;
  case 8: x = "[" + oct(c) + "]"; break;
  case 9: if (inmeta || dmeta) { sym_cover("n/a"); return; } x = std::string("[") + (char)c + (char)d + "]"; S[d] = true; break;
  case 10: if (inmeta) { sym_cover("n/a"); return; } x = std::string("[") + (char)c + "]"; break;
  case 11: if (inmeta) { sym_cover("n/a"); return; } x = std::string("[^") + (char)c + "]"; neg = true; break;
  case 12: if (meta) { sym_cover("n/a"); return; } x = std::string(1, (char)c); break;
  case 13: if (!((c >= 'a' && c <= 'z') || (c >= '@' && c <= 'Z'))) { sym_cover("n/a"); return; } x = std::string("\\c") + (char)c; break;
  case 14: if (inmeta || dmeta) { sym_cover("n/a"); return; } x = std::string("[") + (char)c + "-" + (char)d + "]"; break;
  case 15: if (alnum(c) || !c) { sym_cover("n/a"); return; } x = std::string("[\\") + (char)c + "]"; break;
  }
  if (f == 3 || f == 4 || f == 14) { if (c > d) rej = true; for (unsigned i = c; i <= d; ++i) S[i] = true; }
  else if (f == 13) S[c & 31] = true; else S[c] = true;
  if (ic) for (unsigned i = 'a'; i <= 'z'; ++i) S[i] = S[i - 32] = S[i] || S[i - 32];
  if (neg) for (bool& b : S) b = !b;
  bool any = false; for (bool b : S) any |= b; if (!any) rej = true;
  lexertl::rules r(*lexertl::regex_flags::dot_not_newline | (ic ? *lexertl::regex_flags::icase : 0)); lexertl::state_machine sm; bool rejected = false;
  try { r.push(x, 1); lexertl::generator::build(r, sm); } catch (const lexertl::runtime_error&) { rejected = true; }
  sym_assert(rejected == rej, "accepted exactly when it should be"); if (rejected) { sym_cover("rejected"); return; }
  char t[1]; sym_bytes(t, 1); lexertl::cmatch m(t, t + 1); lexertl::lookup(sm, m);
  if (m.id == 1) sym_cover("match"); else sym_cover("nomatch");
  sym_assert((m.id == 1) == member(S, (unsigned char)t[0]), "the member and nothing else"); CHECK(m.second == t + 1); sym_observe(1, m.id);
}
