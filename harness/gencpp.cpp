// C25: the emitted C++ itself, executed symbolically next to lookup() on the machine it was emitted from.
#include "gensets.h"
#include <gen_lexers.hpp>
#include <stdexcept>
#ifndef CH
#define CH char
#define NARROW 1
#endif
using namespace orc; typedef Lib<CH> LB;
#ifdef NARROW
#define G(k, p) k##_c##p
#else
#define G(k, p) k##_w##p
#endif
// recursive results for recursive machines, plain results otherwise
static void gen(LB::res& m, unsigned i, int p) { if (p) switch (i) { G(GEN_CASES, p) default: sym_fatal("no code"); } else switch (i) { G(GEN_CASES, t) default: sym_fatal("no code"); } }
static void gen(LB::rres& m, unsigned i, int p) { if (p) switch (i) { G(GEN_RCASES, p) default: sym_fatal("no code"); } else switch (i) { G(GEN_RCASES, t) default: sym_fatal("no code"); } }
template<class M> void cmp(const LB::sm& sm, const CH* t, int L, unsigned i, int p, M m, M n) {
  bool hasbol = sm.data()._features & *lexertl::feature_bit::bol;
  for (int k = 0; k <= L; ++k) {
    bool ta = false, tb = false; try { lexertl::lookup(sm, n); } catch (std::runtime_error&) { ta = true; } try { gen(m, i, p); } catch (std::runtime_error&) { tb = true; }
    CHECK(ta == tb); if (ta) { sym_cover("underflow"); return; }
    sym_observe(1, m.id); sym_observe(2, m.second - t);
    CHECK(m.id == n.id); CHECK(m.user_id == n.user_id); CHECK(m.first == n.first); CHECK(m.second == n.second); CHECK(m.state == n.state); if (hasbol) CHECK(m.bol == n.bol);
    if constexpr (!std::is_same<M, LB::res>::value) { CHECK(m.stack == n.stack); if (!m.stack.empty()) sym_cover("stack"); }
    if (n.id == 0 && n.first == t + L) { sym_cover("eoi"); return; } sym_cover(n.id == LB::res::npos() ? "nomatch" : "match"); if (m.state) sym_cover("state"); } }
void harness() {
  unsigned lo = sym_param("lo", 0), hi = sym_param("hi", 1), i = lo + sym_choice(hi - lo); int p = sym_param("ptr", 0), L = sym_param("L", 4);
  Fam f; gensets::make(f, i); LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm);
  CH t[MAXL]; sym_text(t, L); int b = sym_choice(2);
  if (sm.data()._features & *lexertl::feature_bit::recursive) { if constexpr (true) { LB::rres a(t, t + L, b); cmp(sm, t, L, i, p, a, a); } } else { LB::res a(t, t + L, b); cmp(sm, t, L, i, p, a, a); }
}
