// Table entries (tables.h): the rule built by the library against the plain equivalent in the oracle,
// for every text of L characters.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "oracle.h"
#include "tables.h"
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef lexertl::basic_rules<char, CH> rules_t; typedef lexertl::basic_state_machine<CH> sm_t; typedef lexertl::basic_generator<rules_t, sm_t> gen_t; typedef lexertl::match_results<const CH*> res_t;
#define TAB(k) case k: T = T##k; N = sizeof T##k / sizeof *T; break;
void harness() {
  const Ent* T = nullptr; size_t N = 0;
  switch (sym_param("tab", 6)) { TAB(6) TAB(8) TAB(33) TAB(30) TAB(29) }
  int L = sym_param("L", 2); unsigned parts = sym_param("parts", 1), p0 = sym_param("p0", 0);
  unsigned k = sym_choice((N + parts - 1 - p0) / parts) * parts + p0; const Ent& e = T[k];
  if (sizeof(CH) > 1 && (e.kind & NARROW)) { sym_cover("narrow only"); return; }
  std::string rx(e.rx, e.n); bool rejected = false;
  rules_t r(e.flags | (sym_param("second", 0) ? 32 : 0)); sm_t sm;
  try {
    if (e.mac) for (const char* p = e.mac; *p;) { const char* q = p; while (*q != '=') ++q; const char* z = q; while (*z && *z != ';') ++z; r.insert_macro(std::string(p, q).c_str(), std::string(q + 1, z)); p = *z ? z + 1 : z; }
    r.push(rx, 1);
    if (sym_param("second", 0)) r.push(std::string(e.flags & IC ? "(?-i:[ab])" : "[ab]"), 2);
    gen_t::build(r, sm);
  } catch (const lexertl::runtime_error&) { rejected = true; }
  bool must = (e.kind & REJECT) || !*e.plain;
  sym_assert(rejected == must, "accepted exactly when it should be");
  if (rejected) { sym_cover("rejected"); return; }
  ClassTab ct; Regex g, g2; std::string plain(e.plain); parse(g, ct, plain.c_str()); parse(g2, ct, "[ab]");
  CH t[MAXL]; sym_bytes(t, L * sizeof(CH)); if (sizeof(CH) == 4) for (int i = 0; i < L; ++i) { const uint8_t* b = (const uint8_t*)(t + i); sym_assume(b[3] == 0); sym_assume(b[2] <= 0x10); }
  Text X; X.L = L; for (int i = 0; i < L; ++i) { typedef typename std::make_unsigned<CH>::type U; U c = (U)t[i]; u32 v = ct.tab[c & 255]; if (sizeof(CH) > 1) v = (c >> 4 >> 4) ? ct.hi : v; X.cls[i] = v; }
  mask M[MAXL + 1], M2[MAXL + 1]; X.eval(g, g.root, M); X.eval(g2, g2.root, M2); if (!sym_param("second", 0)) M2[0] = 0;
  res_t m(t, t + L); lexertl::lookup(sm, m); int len = m.second - m.first, h = high(M[0]);
  if (m.id == 1) { sym_cover("match"); sym_assert(h == len, "length of the match"); }
  else if (m.id == 2) { sym_assert((h < 1) & (int)(M2[0] >> 1 & 1) & (len == 1), "second rule"); }
  else { sym_cover("nomatch"); sym_assert((h < 0) & (high(M2[0]) < 0), "no match although the regex matches"); CHECK(len == 1); CHECK(m.id == res_t::npos()); }
  sym_observe(1, m.id); sym_observe(2, len);
}
