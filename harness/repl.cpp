// C22: every form of replace() against the sequence of reported tokens.
#include "walk.h"
#include <lexertl/replace.hpp>
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef Lib<CH> LB; typedef std::basic_string<CH> S; typedef S::const_iterator It;
static S cat(const S& a) { S r(1, '<'); for (size_t i = a.size(); i--; ) r += a[i]; r += (CH)'>'; return r; }
static S cb_s(It& f, It& s) { return cat(S(f, s)); }
static S cb_sp(const CH* f, const CH* s) { return cat(S(f, s)); }
static CH buf[64];
static const CH* put(const S& r) { size_t i = 0; for (; i < r.size(); ++i) buf[i] = r[i]; buf[i] = 0; return buf; }
static const CH* cb_p(const CH* f, const CH* s) { return put(cat(S(f, s))); }
static const CH* cb_pi(It f, It s) { return put(cat(S(f, s))); }
void is(const S& got, const S& exp, const char* w) { sym_assert(got.size() == exp.size(), w); for (size_t i = 0; i < exp.size(); ++i) sym_assert(got[i] == exp[i], w); }
// output through a raw pointer into a buffer of exactly the expected size
template<class F> void raw(const S& exp, const char* w, F f) { size_t n = exp.size(); CH* o = (CH*)malloc((n ? n : 1) * sizeof(CH)); if (n == 0) o[0] = 'Z'; CH* e = f(o); sym_assert((size_t)(e - o) == n, w); for (size_t i = 0; i < n; ++i) sym_assert(o[i] == exp[i], w); if (n == 0) sym_assert(o[0] == 'Z', w); free(o); }
void harness() {
  Fam f; f.make(sym_param("fam", 5)); int L = sym_param("L", 3), form = sym_param("form", 0); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm);
  S s(L, CH()); sym_text(&s[0], L); bool nz = form >= 2; if (nz) for (int i = 0; i < L; ++i) sym_assume(s[i] != 0);
  const S in(s); const CH* p = s.c_str(); int fl = form & 1 ? 0 : 1 + sym_choice(2); S fm(fl, CH()); sym_bytes(&fm[0], fl * sizeof(CH)); bool fnz = sym_choice(2); if (fnz) for (int i = 0; i < fl; ++i) sym_assume(fm[i] != 0);
  // expected outputs
  S all, map, call; { LB::res m(p, p + L); long last = 0; for (int i = 0; ; ++i) { sym_assert(i <= L, "lookup ends"); Tok k = step(sm, m, p); if (k.id == 0) break; S gap(p + last, p + k.first), tx(p + k.first, p + k.second); if (!gap.empty()) sym_cover("gap");
      all += gap; all += fm; map += gap; map += k.id == 11 || k.id == LB::res::npos() ? fm : tx; call += gap; call += k.id == 11 || k.id == LB::res::npos() ? cat(tx) : tx; if (k.id == LB::res::npos()) sym_cover("nomatch"); else sym_cover("match"); last = k.second; sym_observe(1, last); }
    S rest(p + last, p + L); if (!rest.empty()) sym_cover("rest"); all += rest; map += rest; call += rest; }
  typedef uint16_t I; I np = LB::res::npos(); const S& cs = s; It b = cs.begin(), e = cs.end(); const CH* fp = fm.c_str();
  std::map<I, S> ms; ms[11] = fm; ms[np] = fm; std::map<I, const CH*> mp; mp[11] = fp; mp[np] = fp;
  std::map<I, S(*)(It&, It&)> mcs; mcs[11] = cb_s; mcs[np] = cb_s; std::map<I, S(*)(const CH*, const CH*)> mcsp; mcsp[11] = cb_sp; mcsp[np] = cb_sp; std::map<I, const CH*(*)(const CH*, const CH*)> mcp; mcp[11] = cb_p; mcp[np] = cb_p; std::map<I, const CH*(*)(It, It)> mcpi; mcpi[11] = cb_pi; mcpi[np] = cb_pi;
  using lexertl::replace;
  is(replace(s, sm, fm), all, "replace(string, string)"); is(replace(s, sm, ms), map, "replace(string, map of string)"); is(replace(s, sm, mcs), call, "replace(string, map of callback)");
  { S o; replace(std::back_inserter(o), b, e, sm, fm); is(o, all, "replace(back_inserter, string)"); } { S o; replace(std::back_inserter(o), b, e, sm, ms); is(o, map, "replace(back_inserter, map)"); }
  raw(all, "replace(out, string)", [&](CH* o) { return replace(o, b, e, sm, fm); }); raw(map, "replace(out, map of string)", [&](CH* o) { return replace(o, p, p + L, sm, ms); }); raw(call, "replace(out, map of callback)", [&](CH* o) { return replace(o, b, e, sm, mcs); });
  if (fnz) { sym_cover("pointers"); is(replace(s, sm, fp), all, "replace(string, pointer)"); is(replace(s, sm, mp), map, "replace(string, map of pointer)"); if (nz) is(replace(s, sm, mcp), call, "replace(string, map of pointer callback)");
    raw(all, "replace(out, pointer)", [&](CH* o) { return replace(o, b, e, sm, fp); }); raw(map, "replace(out, map of pointer)", [&](CH* o) { return replace(o, b, e, sm, mp); });
    if (nz) { raw(call, "replace(out, map of pointer callback)", [&](CH* o) { return replace(o, b, e, sm, mcpi); });
      is(replace(p, sm, fm), all, "replace(pointer, string)"); is(replace(p, sm, ms), map, "replace(pointer, map of string)"); is(replace(p, sm, mcsp), call, "replace(pointer, map of callback)"); is(replace(p, sm, fp), all, "replace(pointer, pointer)"); is(replace(p, sm, mp), map, "replace(pointer, map of pointer)"); is(replace(p, sm, mcp), call, "replace(pointer, map of pointer callback)"); } }
  is(s, in, "the input is not modified");
}
