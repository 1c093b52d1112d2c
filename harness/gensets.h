// The lexers whose generated C++ is checked: description number -> lexer, the same in the program that emits the code
// (run natively) and in the harness.
#pragma once
#include "sym.h"
#include <initializer_list>
namespace gensets { static unsigned cur, cnt; inline unsigned pick(unsigned n) { unsigned h = 2166136261u; for (unsigned x : { cur + 1, ++cnt, cur * 7919u }) { h = (h ^ x) * 16777619u; h ^= h >> 13; } return n < 2 ? 0 : (h >> 5) % n; } }
#define sym_choice(n) gensets::pick(n)
#include "fam.h"
#undef sym_choice
namespace gensets {
const unsigned FAMS = 9;
inline int family(unsigned i) { static const int F[FAMS] = { 1, 2, 3, 4, 5, 8, 10, 20, 2 }; return F[i % FAMS]; }
// family 20: one state with push and pop; many states; anchors in some states only
inline void extra(orc::Fam& f, unsigned i) {
  using namespace orc; unsigned k = i % 4;
  if (k == 0) { f.rec = true; Rule& a = f.rule("\\(", 300); a.act = 2; a.next = 0; a.exit = 0; Rule& b = f.rule("\\)", 301); b.act = 3; f.rule("a+b?", 302, 9); if (pick(2)) { Rule& c = f.rule("c", 303); c.kind = K_NOID; } }
  else if (k == 1) { f.s.ns = 12; for (int j = 0; j < 7; ++j) { static const char* const P[] = { "a", "b+", "[ab]c", "ab", "c", "a?b", "." }; Rule& r = f.rule(P[j], 20 + j, j & 1 ? 5 : -1); r.states = j == 4 ? 4095 : 1 + (1 << (j + 5)); r.act = 1; r.next = (j * 5 + 3) % 12; } Rule& z = f.rule("[^x]", 40); z.states = 4095; z.act = 1; z.next = 0; }
  else if (k == 2) { f.s.ns = 3; Rule& a = f.rule("ab", 7); a.bol = true; a.states = 1 << pick(3); Rule& b = f.rule("a", 8); b.states = 7; b.act = 1; b.next = pick(3); Rule& c = f.rule("[b\\n]", 9); c.states = 7; c.act = 1; c.next = pick(3); Rule& d = f.rule("c", 10); d.states = 2; d.eol = true; }
  else { f.rec = true; f.s.ns = 2; Rule& a = f.rule("a+", 65000, 60000); a.eol = true; a.states = 3; Rule& b = f.rule("\\(", 11); b.states = 3; b.act = 2; b.next = 1; b.kind = pick(3); Rule& c = f.rule("\\)", 12); c.states = 2; c.act = 3; c.bol = pick(2); Rule& d = f.rule("[ab\\n]", 13); d.states = 3; }
}
inline void make(orc::Fam& f, unsigned i) { cur = i; cnt = 0; int fam = family(i); if (fam == 20) extra(f, i / FAMS); else f.make(fam); }
}
