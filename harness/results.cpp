// C35: accessors of a match result, clear and reset.
#include "walk.h"
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef Lib<CH> LB; typedef std::basic_string<CH> S;
template<class V> void text(const V& v, const CH* t, long from, long to, const char* w) { sym_assert((long)v.size() == to - from, w); for (long i = from; i < to; ++i) sym_assert(v[i - from] == t[i], w); }
template<class Res> void access(const Res& m, const CH* t, const typename Res::iter_type& b) {
  long f = m.first - b, s = m.second - b, n = s - f; sym_assert(m.length() == (size_t)n, "length"); text(m.str(), t, f, s, "str");
  auto v = m.view(); text(v, t, f, s, "view"); sym_assert(v.data() == t + f, "view refers to the text"); sym_observe(1, n);
  for (long x = 0; x <= n; ++x) for (long y = 0; x + y <= n; ++y) { text(m.substr(x, y), t, f + x, s - y, "substr"); auto sv = m.subview(x, y); text(sv, t, f + x, s - y, "subview"); sym_assert(sv.data() == t + f + x, "subview refers to the text"); } }
template<class Res, class It> void run(const LB::sm& sm, const Fam& f, const CH* t, const It& b, int L) {
  It e = b + L; Res m(b, e); Res dflt; CHECK(dflt.id == 0); CHECK(dflt.user_id == Res::npos()); CHECK(dflt.bol); CHECK(dflt.state == 0);
  CHECK(Res::npos() == (typename Res::id_type)~0); CHECK(Res::skip() == (typename Res::id_type)~1);
  int k = sym_choice(L + 1), how = sym_choice(3); bool dead = false;
  for (int i = 0; i <= k && !dead; ++i) { Tok x = step(sm, m, b); dead = x.threw; if (!dead) { sym_assert(x.first <= x.second && x.second <= L, "offsets"); access(m, t, b); if (x.id == 0 && x.first == L) break; } }
  Res c(m); bool q = c == m; CHECK(q);
  if (how == 0) { m.clear(); Tok z = tok_of(m, b); CHECK(z.id == 0); CHECK(z.uid == Res::npos()); CHECK(z.first == L); CHECK(z.second == L); CHECK(z.state == 0); CHECK(z.bol); CHECK(z.depth == 0); access(m, t, b);
    Tok y = step(sm, m, b); CHECK(!y.threw); CHECK(y.id == 0); CHECK(y.first == L); sym_cover("cleared"); return; }
  int from = how == 1 ? 0 : sym_choice(L + 1); m.reset(b + from, e); Res fresh(b + from, e); { bool z = m == fresh; CHECK(z); } same(tok_of(m, b), tok_of(fresh, b), "reset result", true);
  for (int i = 0; i <= L; ++i) { Tok x = step(sm, m, b), y = step(sm, fresh, b); same(x, y, "scan after reset", true); if (x.threw) { sym_cover("underflow"); return; } access(m, t, b); bool z = m == fresh; CHECK(z); if (x.id == 0) break; }
  sym_cover("rescanned");
}
void harness() {
  Fam f; f.make(sym_param("fam", 5)); int L = sym_param("L", 3); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm);
  S s(L, CH()); sym_text(&s[0], L);
  const S& cs = s; typedef S::const_iterator It;
  if (sym_param("str", 0)) { if (f.rec) run<lexertl::recursive_match_results<It>, It>(sm, f, cs.data(), cs.begin(), L); else run<lexertl::match_results<It>, It>(sm, f, cs.data(), cs.begin(), L); }
  else if (f.rec) run<LB::rres, const CH*>(sm, f, cs.data(), cs.data(), L); else run<LB::res, const CH*>(sm, f, cs.data(), cs.data(), L);
}
