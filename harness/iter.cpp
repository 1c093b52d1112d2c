// C21: iterators and ranges against repeated lookup.
#include "walk.h"
#include <lexertl/iterator.hpp>
#include <lexertl/range.hpp>
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef Lib<CH> LB;
template<class Res, class It> void run(const LB::sm& sm, const Fam& f, const It& b, const It& e, int L) {
  typedef lexertl::iterator<It, LB::sm, Res> iter; bool bol = true; int st = 0; if (sym_param("anystate", 0)) { st = sym_choice(f.s.ns); bol = sym_choice(2); }
  // reference: all tokens up to and including end of input
  Tok v[MAXL + 2]; int n = 0; Res m(b, e, bol, st); bool fin = false;
  while (!fin && n < L + 2) { v[n] = step(sm, m, b); fin = v[n].threw || v[n].first == L; ++n; }
  sym_assert(fin, "lookup reaches the end"); bool threw = v[n - 1].threw; int cnt = n - 1;
  const iter end; bool eq0 = end == iter(); CHECK(eq0);
  if (cnt == 0 && threw) { bool t = false; try { iter i(b, e, sm, bol, st); } catch (const lexertl::runtime_error&) { t = true; } CHECK(t); sym_cover("underflow"); return; }
  iter i(b, e, sm, bol, st);
  int how = sym_param("how", 0), split = how == 1 ? sym_choice(3) : 0; iter keep; int at = -1;
  if (how == 2) { lexertl::range<iter> rg(i, end); CHECK(rg.begin() == i); CHECK(rg.end() == end); int k = 0; bool t = false; try { for (auto& x : rg) { CHECK(k < cnt); same(tok_of(x, b), v[k++], "range element", true); } } catch (const lexertl::runtime_error&) { t = true; } CHECK(t == threw); CHECK(k == cnt); sym_cover("range"); return; }
  for (int k = 0; ; ++k) {
    bool a = i == end, c = end != i; CHECK(a == (k == cnt && !threw)); CHECK(c == !a);
    if (a) { sym_cover("end"); break; }
    CHECK(k < cnt); CHECK(&i.sm() == &sm); same(tok_of(*i, b), v[k], "iterator element", true); CHECK(&*i == i.operator->()); sym_observe(1, i->id); sym_observe(2, i->second - b);
    if (how == 1 && k == split) { keep = i; at = k; bool q = keep == i; CHECK(q); }
    bool t = false;
    try { if (k & 1) { iter o = i++; same(tok_of(*o, b), v[k], "value of post-increment", true); bool x = o == i; CHECK(!x); } else { iter& o = ++i; CHECK(&o == &i); } } catch (const lexertl::runtime_error&) { t = true; }
    CHECK(t == (threw && k == cnt - 1)); if (t) { sym_cover("underflow"); break; }
    if (at >= 0) { bool x = keep == i; CHECK(!x); } }
  if (at >= 0) { sym_cover("copy"); for (int k = at; k < cnt; ++k) { CHECK(keep != end); same(tok_of(*keep, b), v[k], "copied iterator", true); bool t = false; try { ++keep; } catch (const lexertl::runtime_error&) { t = true; } CHECK(t == (threw && k == cnt - 1)); if (t) return; } CHECK(keep == end); }
}
void harness() {
  Fam f; f.make(sym_param("fam", 5)); int L = sym_param("L", 3); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm);
  if (sym_param("str", 0)) { std::basic_string<CH> s(L, CH()); sym_text(&s[0], L); typedef std::basic_string<CH>::const_iterator It; const auto& cs = s; if (f.rec) run<lexertl::recursive_match_results<It>, It>(sm, f, cs.begin(), cs.end(), L); else run<lexertl::match_results<It>, It>(sm, f, cs.begin(), cs.end(), L); return; }
  CH t[MAXL]; sym_text(t, L);
  if (f.rec) run<LB::rres, const CH*>(sm, f, t, t + L, L); else run<LB::res, const CH*>(sm, f, t, t + L, L);
}
