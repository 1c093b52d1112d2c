// C27: failed builds leave the target as it was; rebuilding leaves no residue.
#include "walk.h"
#include <string>
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
using namespace orc;
typedef Lib<CH, IDT> LB; typedef lexertl::basic_char_state_machine<CH, IDT> csm_t; typedef lexertl::basic_generator<LB::rules, csm_t> cgen_t;
static void equal(const LB::sm& a, const LB::sm& b, const char* w) {
  const auto &x = a.data(), &y = b.data(); sym_assert(x._eoi == y._eoi, w); sym_assert(x._features == y._features, w); sym_assert(x._lookup == y._lookup, w); sym_assert(x._dfa_alphabet == y._dfa_alphabet, w); sym_assert(x._dfa == y._dfa, w); }
static void equal(const csm_t& a, const csm_t& b, const char* w) {
  sym_assert(a._sm_vector.size() == b._sm_vector.size(), w);
  for (size_t i = 0; i < a._sm_vector.size(); ++i) { const auto &p = a._sm_vector[i], &q = b._sm_vector[i]; sym_assert(p._bol_index == q._bol_index, w); sym_assert(p._states.size() == q._states.size(), w);
    for (size_t k = 0; k < p._states.size(); ++k) { const auto &s = p._states[k], &t = q._states[k]; bool e = s._end_state == t._end_state && s._push_pop_dfa == t._push_pop_dfa && s._id == t._id && s._user_id == t._user_id && s._push_dfa == t._push_dfa && s._next_dfa == t._next_dfa && s._eol_index == t._eol_index && s._transitions == t._transitions; sym_assert(e, w); } } }
template<class SM, class M> static void lock(const SM& a, const SM& b, const CH* t, int L, const char* w) { M m(t, t + L), n(t, t + L); for (int i = 0; i <= L; ++i) { Tok x = step(a, m, t), y = step(b, n, t); same(x, y, w, true); sym_observe(1, y.id); sym_observe(2, y.second); if (x.threw) return; if (x.id == 0) return; } }
static void bad(LB::rules& r, unsigned k) {
  auto S = [](const char* s) { return widen<CH>(s); };
  r.push(S("ab"), 1);
  switch (k) {
  case 0: r.push_state(S("S1").c_str()); break;
  case 1: r.push(S("b*"), 2); break;
  case 2: r.push_state(S("S1").c_str()); r.push(S("S1").c_str(), S("c|d?"), 2, S("INITIAL").c_str()); break;
  case 3: r.push(S("[ab]+"), 2); r.push(S("a"), 3); r.push(S("b"), 4); break;
  case 4: r.clear(); break;
  case 5: r.push(S("c{300}"), 2); break;
  case 6: { std::basic_string<CH> x; for (int i = 0; i < 256; ++i) if (i != 'a' && i != 'b') { const char* H = "0123456789abcdef"; if (!x.empty()) x += (CH)'|'; x += S("[\\x"); x += (CH)H[i >> 4]; x += (CH)H[i & 15]; x += (CH)93; x += (CH)('A' + i % 23); } r.push(x, 2); break; } }
}
template<class SM> static bool fails(LB::rules& r, SM& sm) { bool t = false; try { lexertl::basic_generator<LB::rules, SM>::build(r, sm); } catch (const lexertl::runtime_error&) { t = true; } return t; }
void harness() {
  Fam f; f.make(sym_param("fam", 6)); int L = sym_param("L", 3), what = sym_param("what", 0); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); CH t[MAXL]; csm_t c;
  if (what == 0) { // failed build
    LB::gen::build(r, sm); cgen_t::build(r, c); bool mini = sym_choice(2); if (mini) { sm.minimise(); c.minimise(); }
    LB::sm sm0(sm); csm_t c0(c); unsigned k = sym_choice(sizeof(IDT) == 1 ? 7 : 5); if (k >= 5 && sizeof(IDT) > 1) return;
    LB::rules b; bad(b, k); sym_assert(fails(b, sm), "build of an impossible lexer succeeded"); sym_assert(fails(b, c), "build of an impossible lexer succeeded");
    equal(sm, sm0, "failed build changed the machine"); equal(c, c0, "failed build changed the character machine"); sym_text(t, L);
    if (f.rec) lock<LB::sm, LB::rres>(sm, sm0, t, L, "failed build changed the lexer"); else lock<LB::sm, LB::res>(sm, sm0, t, L, "failed build changed the lexer");
    sym_cover(k < 5 ? "failed" : "too large"); return; }
  LB::rules o(*lexertl::regex_flags::allow_suppressed_rules); auto S = [](const char* s) { return widen<CH>(s); };
  switch (sym_choice(4)) { // what the machine held before
  case 0: break;
  case 1: o.push(S("^a+$"), 40); o.push(S("\n"), LB::rules::skip()); break;
  case 2: o.push_state(S("P").c_str()); o.push_state(S("Q").c_str()); o.push_state(S("R").c_str()); o.push(S("*").c_str(), S("[(]"), 41, S(">Q:P").c_str()); o.push(S("*").c_str(), S("[)]$"), 42, S("<").c_str()); o.push(S("*").c_str(), S("^b"), S("R").c_str()); break;
  case 3: o.push(S("x{3}|y"), LB::rules::skip()); o.push(S("[^x]"), 43, 44); break; }
  LB::sm sm1; csm_t c1;
  if (!o.empty()) { LB::gen::build(o, sm); cgen_t::build(o, c); if (what == 2) { sm.minimise(); c.minimise(); } }
  if (what == 3) { // rules object reused
    LB::rules o2(o); o2.clear(); o2.flags(f.s.flags); f.s.add(o2); LB::gen::build(o2, sm); cgen_t::build(o2, c); sym_cover("cleared rules"); }
  else { LB::gen::build(r, sm); cgen_t::build(r, c); LB::gen::build(r, sm); }
  LB::gen::build(r, sm1); cgen_t::build(r, c1); equal(sm, sm1, "rebuilt machine"); equal(c, c1, "rebuilt character machine"); sym_text(t, L);
  if (f.rec) lock<LB::sm, LB::rres>(sm, sm1, t, L, "rebuilt lexer"); else lock<LB::sm, LB::res>(sm, sm1, t, L, "rebuilt lexer"); sym_cover("rebuilt");
}
