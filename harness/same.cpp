// A lexer from a family next to a transformed form of it: minimised, as a character state machine,
// saved and loaded, or rebuilt into a used machine.  Both run on the same symbolic text.
#include "walk.h"
#include <lexertl/sm_to_csm.hpp>
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
using namespace orc;
typedef Lib<CH, IDT> LB; typedef lexertl::basic_char_state_machine<CH, IDT> csm_t; typedef lexertl::basic_generator<LB::rules, csm_t> cgen_t;
template<class Res> void lock2(const LB::sm& a, const LB::sm& b, const CH* t, int L, const Fam& f, const char* w) {
  int st = sym_param("anystate", 0) ? sym_choice(f.s.ns) : 0; Res m(t, t + L, true, (IDT)st), n(t, t + L, true, (IDT)st);
  for (int i = 0; i <= L; ++i) { Tok x = step(a, m, t), y = step(b, n, t); same(x, y, w, true); sym_observe(1, y.id); sym_observe(2, y.second); if (x.threw) { sym_cover("underflow"); return; } if (x.id == 0) sym_cover("eoi"); else if (x.id == LB::res::npos()) sym_cover("nomatch"); else sym_cover("match"); if (x.id == 0 && x.first == L) return; } }
template<class Res> void lockc(const LB::sm& a, const csm_t& c, const CH* t, int L, const Fam& f, const char* w) {
  Res m(t, t + L); CWalk<csm_t, CH> n(c, t, L, f.rec); bool hasbol = false; for (int k = 0; k < f.s.n; ++k) hasbol |= f.s.r[k].bol;
  for (int i = 0; i <= L; ++i) { Tok x = step(a, m, t), y = n.next(); same(x, y, w, hasbol); sym_observe(1, x.id); sym_observe(2, x.second); if (x.threw) { sym_cover("underflow"); return; } if (x.id == 0) sym_cover("eoi"); else if (x.id == LB::res::npos()) sym_cover("nomatch"); else sym_cover("match"); if (x.id == 0 && x.first == L) return; } }
template<class Res> void both(int mode, int what, const Fam& f, LB::rules& r, LB::sm& sm, const CH* t, int L) {
  if (mode == 16) {
    if (what == 0) { LB::sm mn(sm); mn.minimise(); size_t was = 0, is = 0; for (size_t d = 0; d < sm.data()._dfa.size(); ++d) { was += sm.data()._dfa[d].size(); is += mn.data()._dfa[d].size(); CHECK(mn.data()._dfa[d].size() <= sm.data()._dfa[d].size()); } if (is < was) sym_cover("smaller"); lock2<Res>(sm, mn, t, L, f, "minimised machine"); }
    else { csm_t c; cgen_t::build(r, c); std::vector<size_t> n; for (auto& d : c._sm_vector) n.push_back(d.size()); c.minimise(); for (size_t i = 0; i < n.size(); ++i) { CHECK(c._sm_vector[i].size() <= n[i]); if (c._sm_vector[i].size() < n[i]) sym_cover("smaller"); } lockc<Res>(sm, c, t, L, f, "minimised character machine"); } }
  else if (mode == 18) { csm_t c;
    if (what == 0) cgen_t::build(r, c);
    else if (what == 1) lexertl::sm_to_csm(sm, c);
    else if (what == 2) { LB::sm mn(sm); mn.minimise(); lexertl::sm_to_csm(mn, c); }
    CHECK(c._sm_vector.size() == sm.data()._dfa.size()); lockc<Res>(sm, c, t, L, f, "character machine"); }
}
void harness() {
  Fam f; f.make(sym_param("fam", 8)); int L = sym_param("L", 3), mode = sym_param("mode", 16), what = sym_param("what", 0);
  if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm);
  CH t[MAXL]; sym_bytes(t, L * sizeof(CH)); if (sizeof(CH) == 4) for (int i = 0; i < L; ++i) { const uint8_t* b = (const uint8_t*)(t + i); sym_assume(b[3] == 0); sym_assume(b[2] <= 0x10); }
  if (f.rec) both<LB::rres>(mode, what, f, r, sm, t, L); else both<LB::res>(mode, what, f, r, sm, t, L);
}
