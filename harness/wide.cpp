// Wide-character charsets with bounds on and around byte boundaries, alone, negated and next to a second rule.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <lexertl/iterator.hpp>
#include "oracle.h"
#include "pages.h"
#ifndef CH
#define CH char32_t
#endif
using namespace orc;
typedef lexertl::basic_rules<char, CH> rules_t; typedef lexertl::basic_state_machine<CH> sm_t; typedef lexertl::basic_generator<rules_t, sm_t> gen_t; typedef lexertl::match_results<const CH*> res_t;
static const u32 B32[] = { 0, 1, 0xff, 0x100, 0x101, 0x1ff, 0x0234, 0x500, 0xfeff, 0xff00, 0xffff, 0x10000, 0x10001, 0x100ff, 0x10100, 0x1ffff, 0x20000, 0x2f0ff, 0x50123, 0xfffff, 0x100000, 0x10fe80, 0x10ff00, 0x10ffff };
static const u32 B16[] = { 0, 1, 0x7f, 0xfe, 0xff, 0x100, 0x101, 0x1ff, 0x200, 0x234, 0x5fe, 0xfeff, 0xff00, 0xff01, 0xfffe, 0xffff };
static const u32* B = sizeof(CH) == 4 ? B32 : B16; static const unsigned NB = sizeof(CH) == 4 ? sizeof B32 / 4 : sizeof B16 / 4;
struct Set { u32 lo[3], hi[3]; int n = 0; bool neg = false; std::string text;
  static void hex(std::string& s, u32 v) { static const char* d = "0123456789abcdef"; s += "\\x"; bool on = false; for (int k = 20; k >= 0; k -= 4) { u32 x = v >> k & 15; if (x || on || !k) { s += d[x]; on = true; } } }
  void add(u32 a, u32 b) { lo[n] = a; hi[n++] = b; }
  void render() { text = neg ? "[^" : "["; for (int i = 0; i < n; ++i) { hex(text, lo[i]); if (hi[i] != lo[i]) { text += '-'; hex(text, hi[i]); } } text += ']'; }
  bool empty() const { const u32 mx = sizeof(CH) == 4 ? 0x10ffff : 0xffff; if (!neg) return false; for (int i = 0; i < n; ++i) if (lo[i] == 0 && hi[i] == mx) return true; if (n == 2) { int a = lo[0] == 0 ? 0 : 1, b = 1 - a; return lo[a] == 0 && hi[b] == mx && lo[b] <= hi[a] + 1; } return false; }
  u32 v[4][2]; int nv = 0;
  void merge() { nv = 0; for (int i = 0; i < n; ++i) { v[nv][0] = lo[i]; v[nv++][1] = hi[i]; } if (nv == 2 && v[1][0] < v[0][0]) { for (int k = 0; k < 2; ++k) { u32 x = v[0][k]; v[0][k] = v[1][k]; v[1][k] = x; } } if (nv == 2 && v[1][0] <= v[0][1] + 1) { if (v[1][1] > v[0][1]) v[0][1] = v[1][1]; nv = 1; } } };
static Pages pg[2];
// a range of boundary values picked by one number
static void pick(Set& s, unsigned k) { for (unsigned a = 0; a < NB; ++a) { if (k < NB - a) { s.add(B[a], B[a + k]); return; } k -= NB - a; } }
void harness() {
  unsigned NR = NB * (NB + 1) / 2, parts = sym_param("parts", 1), p0 = sym_param("p0", 0), two = sym_param("two", 0), sets = sym_param("sets", 1), thin = sym_param("thin", 1);
  Set s[2]; unsigned h = 0;
  for (unsigned k = 0; k < sets; ++k) {
    unsigned a; if (k == 0) a = sym_choice((NR + parts - 1 - p0) / parts) * parts + p0; else a = sym_choice(NR / 7) * 7 + h % 7;
    pick(s[k], a); h = h * 31 + a;
    if (two) { unsigned b = sym_choice(NR / 5) * 5 + h % 5; pick(s[k], b); h = h * 31 + b; }
    s[k].neg = sym_choice(2); h = h * 2 + s[k].neg; }
  if (thin > 1 && (h * 2654435761u >> 8) % thin) { sym_cover("thinned"); return; }
  bool empty = false; for (unsigned k = 0; k < sets; ++k) { s[k].render(); empty |= s[k].empty(); }
  rules_t r(32); sm_t sm; bool rejected = false;
  // one set: X+ ; two sets: X Y | Y+ , X
  std::string x = s[0].text, y = s[1].text;
  try { if (sets == 1) r.push(x + '+', 1); else { r.push(x + y + "|" + y + "+", 1); r.push(x, 2); } gen_t::build(r, sm); } catch (const lexertl::runtime_error&) { rejected = true; }
  sym_assert(rejected == empty, "rejected exactly when a charset is empty"); if (rejected) { sym_cover("empty"); return; }
  for (unsigned k = 0; k < sets; ++k) { s[k].merge(); pg[k].build(s[k].v, s[k].nv, sizeof(CH) == 4 ? 0x10ffff : 0xffff); }
  int L = sym_param("L", 2); CH t[MAXL]; sym_text(t, L);
  res_t m(t, t + L); lexertl::lookup(sm, m); 
  Text X; X.L = L; for (int i = 0; i < L; ++i) { X.cls[i] = (pg[0].has(t[i]) ^ s[0].neg) | (sets > 1 ? (pg[1].has(t[i]) ^ s[1].neg) << 1 : 0); }
  Regex g; int a = g.set(0, "x"); mask M[MAXL + 1], M2[MAXL + 1];
  if (sets == 1) { g.root = g.un(PLUS, a); X.eval(g, g.root, M); M2[0] = 0; }
  else { int b = g.set(1, "y"); g.root = g.bin(ALT, g.bin(CAT, a, b), g.un(PLUS, b)); X.eval(g, g.root, M); X.eval(g, a, M2); }
  int len = m.second - m.first, h1 = high(M[0]), h2 = high(M2[0]); CHECK(m.first == t);
  if (m.id == 1) { sym_cover("match"); sym_assert((h1 == len) & (h1 >= h2), "length of the match"); }
  else if (m.id == 2) { sym_cover("second"); sym_assert((h2 == len) & (h2 > h1), "second rule"); }
  else { sym_cover("nomatch"); CHECK(m.id == res_t::npos()); CHECK(len == 1); sym_assert((h1 < 0) & (h2 < 0), "character of the charset not matched"); }
  sym_observe(1, m.id); sym_observe(2, len);
}
