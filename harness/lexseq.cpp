// A lexer from a family is built by the library and run over a symbolic text; every
// reported token is compared with the reference simulation.
#include "fam.h"
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
using namespace orc;
typedef Lib<CH, IDT> LB;
template<class Res> struct StackOps { static void cmp(const Res&, const RefState&) {} };
template<class It, class I> struct StackOps<lexertl::recursive_match_results<It, I>> {
  static void cmp(const lexertl::recursive_match_results<It, I>& m, const RefState& x) { CHECK(m.stack.size() == (size_t)x.sp); if (x.sp) { sym_assert(m.stack.top().first == (I)x.stk[x.sp - 1].st, "stack top state"); sym_assert(m.stack.top().second == (I)x.stk[x.sp - 1].id, "stack top id"); } } };
template<class Res> void run(const LB::sm& sm, const Fam& f, const CH* t, int L, int steps) {
  int ib = sym_param("initbol", 2); bool bol0 = ib == 2 ? true : ib == 3 ? sym_choice(2) : ib; int st0 = sym_param("anystate", 0) ? sym_choice(f.s.ns) : 0;
  Ref<CH> ref(f.s, t, L, f.ct.tab, f.ct.hi, bol0);
  Res m(t, t + L, bol0, (IDT)st0); RefState x; x.state = st0;
  bool hasbol = false; for (int k = 0; k < f.s.n; ++k) hasbol |= f.s.r[k].bol;
  for (int i = 0; i < steps; ++i) {
    bool threw = false;
    try { lexertl::lookup(sm, m); } catch (const lexertl::runtime_error&) { threw = true; }
    if (f.clash) { ref.weak(x, sym_conc(m.id), m.first - t, sym_conc(m.second - t)); if (x.eoi) return; if (x.id >= 0) sym_cover("clash"); sym_observe(1, m.id); sym_observe(2, m.second - t); continue; }
    ref.next(x);
    CHECK(threw == x.underflow);
    if (threw) { sym_cover("underflow"); return; }
    int first = m.first - t, second = m.second - t;
    sym_assert(m.id == (IDT)x.id, "token id"); sym_assert(m.user_id == (IDT)x.uid, "user id");
    sym_assert(second == x.pos, "token end"); sym_assert(first == x.first, "token start");
    sym_assert(m.state == (IDT)x.state, "start state"); StackOps<Res>::cmp(m, x);
    if (!x.eoi && x.pos != x.first && hasbol) sym_assert(m.bol == ref.bol(x.pos), "beginning-of-line flag");
    sym_observe(1, m.id); sym_observe(2, first); sym_observe(3, second); sym_observe(4, m.state);
    if (x.id == NPOS) sym_cover("nomatch"); else if (x.eoi) sym_cover("eoi"); else sym_cover("match");
    if (x.sp > 1) sym_cover("deep"); if (x.state) sym_cover("state");
    if (x.eoi) { lexertl::lookup(sm, m); CHECK(m.id == 0); CHECK(m.second == t + L); CHECK(m.first == t + L); return; }
  }
}
static void mirror(Fam& f) { for (int k = 0; k < f.s.n; ++k) { Rule& x = f.s.r[k]; x.g.mirror(); bool b = x.bol; x.bol = x.eol; x.eol = b; } }
void harness() {
  static_assert(sizeof(LB::res), "");
  Fam f; f.make(sym_param("fam", 1)); if (f.thinned()) { sym_cover("thinned"); return; } int L = sym_param("L", 4);
  LB::rules r(f.s.flags); LB::sm sm;
  f.s.add(r); unsigned rev = sym_param("rev", 0); if (rev == 3) rev = 1 + sym_choice(2); for (unsigned i = 0; i < rev; ++i) r.reverse(); if (rev == 1) { mirror(f); sym_cover("reversed"); } else if (rev) sym_cover("twice");
  if (f.clash) { try { LB::gen::build(r, sm); } catch (const lexertl::runtime_error&) { sym_cover("rejected"); return; } }
  else LB::gen::build(r, sm);
  CH t[MAXL]; sym_bytes(t, L * sizeof(CH));
  if (sizeof(CH) == 4) for (int i = 0; i < L; ++i) { const uint8_t* b = (const uint8_t*)(t + i); sym_assume(b[3] == 0); sym_assume(b[2] <= 0x10); }
  if (f.rec) run<LB::rres>(sm, f, t, L, sym_param("steps", L + 1)); else run<LB::res>(sm, f, t, L, sym_param("steps", L + 1));
}
