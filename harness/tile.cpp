// C04: tokens tile the input.  The lexer next to a twin whose skip and id-less rules carry ids of their own.
#include "walk.h"
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef Lib<CH> LB;
void harness() {
  Fam f; f.make(sym_param("fam", 5)); int L = sym_param("L", 3); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags), r2(f.s.flags); LB::sm sm, twin; f.s.add(r); LB::gen::build(r, sm);
  Spec s2 = f.s; bool none = true; for (int k = 0; k < s2.n; ++k) { Rule& x = s2.r[k]; if (x.kind != K_ID) { none = false; x.id = (x.kind == K_SKIP ? 900 : 950) + k; x.kind = K_ID; x.uid = -1; } }
  s2.add(r2); LB::gen::build(r2, twin);
  CH t[MAXL]; sym_text(t, L);
  int st = sym_param("anystate", 0) ? sym_choice(f.s.ns) : 0;
  LB::res m(t, t + L, true, st), w(t, t + L, true, st); long pos = 0; int calls = 0;
  for (;;) {
    sym_assert(calls++ <= L, "end of input is reached after at most one token per character");
    Tok k = step(sm, m, t); long from = pos; Tok e;
    for (;;) { // the same text through the twin
      e = step(twin, w, t); sym_assert(e.first == pos, "a token starts where the previous one ended"); if (e.id == 0) { sym_assert(e.second == pos && pos == L, "end of input only at the end"); break; }
      sym_assert(e.second > e.first && e.second <= L, "a token is not empty and lies in the text"); pos = e.second;
      if (e.id == LB::res::npos()) { sym_assert(e.second == e.first + 1, "one unmatched character"); from = e.first; break; }
      if (e.id >= 950 && e.id < 960) continue; if (e.id >= 900 && e.id < 950) { from = pos; continue; } break; }
    sym_assert(k.id == e.id, "id"); sym_assert(k.uid == e.uid, "user id"); sym_assert(k.second == pos, "token end"); sym_assert(k.first == from, "token start"); sym_assert(k.state == e.state, "state");
    sym_observe(1, k.id); sym_observe(2, k.first); sym_observe(3, k.second);
    if (k.id == 0) { sym_cover("eoi"); if (k.first != L) sym_cover("open end"); for (int i = 0; i < 2; ++i) { Tok z = step(sm, m, t); sym_assert(z.id == 0 && z.first == L && z.second == L, "end of input stays"); } return; }
    if (k.id == LB::res::npos()) sym_cover("nomatch"); else sym_cover("match"); if (!none && k.first != e.first) sym_cover("joined");
  }
}
