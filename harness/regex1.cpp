// One or several rules with enumerated shapes, symbolic text: first token vs oracle.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "oracle.h"
using namespace orc;
static u32 tab[256];
static int leafno = 0;
static const char* const leaf_txt[] = { "a", "b", "[^a]", ".", "[a-c]", "c", "d" };
static void mktab() { for (int c = 0; c < 256; ++c) tab[c] = (c == 'a') | (c == 'b') << 1 | (c != 'a') << 2 | (c != '\n') << 3 | (c >= 'a' && c <= 'c') << 4 | (c == 'c') << 5 | (c == 'd') << 6; }
static int budget_un;
static int leafs, dist;
static u32 hash_ = 2166136261u;
static unsigned ch(unsigned n) { unsigned v = sym_choice(n); hash_ = (hash_ ^ v) * 16777619u; return v; }
static bool first = true;
static unsigned pick(unsigned n) { if (first) { first = false; long p = sym_param("p0", -1); if (p >= 0) { hash_ = (hash_ ^ p) * 16777619u; return (unsigned)p % n; } } return ch(n); }
static int gen(Regex& g, int size, long unk) {
  int r;
  if (size == 1) { static const int dl[] = { 0, 1, 5, 6 }; int l = dist ? dl[leafno++ & 3] : ch(leafs); r = g.set(l, leaf_txt[l]); }
  else { int left = size == 2 ? 1 : 1 + pick(size - 1); Kind k = ch(2) ? ALT : CAT; int a = gen(g, left, unk), b = gen(g, size - left, unk); r = g.bin(k, a, b); }
  if (budget_un > 0) { unsigned u = ch(unk); if (u) { --budget_un; r = g.un(u == 1 ? STAR : u == 2 ? PLUS : OPT, r); } }
  return r;
}
void harness() {
  mktab(); leafno = 0; first = true; hash_ = 2166136261u;
  int L = sym_param("L", 4), size = sym_param("size", 3); leafs = sym_param("leafs", 2); dist = sym_param("dist", 0); budget_un = sym_param("un", 2);
  Regex g; g.root = gen(g, size, 4);
  u32 thin = sym_param("thin", 1); if (thin > 1 && (hash_ >> 7) % thin) { sym_cover("thinned"); return; }
  std::string rx = g.text();
  lexertl::rules r; lexertl::state_machine sm;
  r.push(rx, 1); unsigned rev = sym_param("rev", 0); for (unsigned i = 0; i < rev; ++i) r.reverse(); if (rev == 1) g.mirror();
  bool threw = false;
  try { lexertl::generator::build(r, sm); } catch (const lexertl::runtime_error&) { threw = true; }
  CHECK(threw == g.nullable());
  if (threw) { sym_cover("nullable"); return; }
  char t[MAXL]; sym_bytes(t, L);
  lexertl::cmatch m(t, t + L);
  lexertl::lookup(sm, m);
  Text T; T.L = L; for (int i = 0; i < L; ++i) T.cls[i] = tab[(unsigned char)t[i]];
  mask M[MAXL + 1]; T.eval(g, g.root, M);
  int h = high(M[0]);
  int len = m.second - m.first;
  if (m.id == 1) { sym_cover("match"); sym_assert(h == len, "longest match length"); }
  else { sym_cover("nomatch"); CHECK(m.id == lexertl::cmatch::npos()); CHECK(len == 1); sym_assert(h < 0, "no match although the regex matches"); }
  sym_observe(1, m.id); sym_observe(2, len);
}
