// Counted repeats: operand x counts x context against the reference semantics (set=0),
// lazy variants are in lazy.cpp.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "oracle.h"
using namespace orc;
static const char* const OPS[] = { "a", "(ab)", "(a|b)", "[ab]", "(a?b?)", "(a*)", "(a{2}|b)", "(a{1,2})", "(ab?)", "(a(b|c){2})", "((a|b)(a|c))", "(a+b)" };
static const char* const CNT[] = { "{2}", "{1}", "{3}", "{0,}", "{1,}", "{2,}", "{0,1}", "{0,2}", "{1,2}", "{1,3}", "{2,3}", "{0,3}", "{2,2}", "{3,}", "{2,4}", "{1,1}", "{4}", "{5}", "{10}", "{4,6}", "{5,}", "{0,5}", "{9,11}", "{1,8}", "{3,5}", "{02}" };
static const char* const CTX[] = { "%c", "%", "c%", "a%", "%b", "%|c", "(%c)*b", "(%){2}c", "(c%)+", "%%c", "(%|c){2}", "(%c){1,2}" };
static long pick(const char* n, unsigned k) { long p = sym_param(n, -1); return p >= 0 ? p : sym_choice(k); }
void harness() {
  int L = sym_param("L", 5);
  unsigned o = pick("p0", 12), q = pick("p1", sym_param("nq", 16)) + sym_param("q0", 0), c = pick("p2", sym_param("nc", 12));
  if ((o * 7 + q * 5 + c * 3) % (unsigned)sym_param("thin", 1)) { sym_cover("thinned"); return; }
  std::string x = std::string(OPS[o]) + CNT[q], rx; for (const char* p = CTX[c]; *p; ++p) if (*p == '%') rx += x; else rx += *p;
  Regex g; ClassTab ct; parse(g, ct, rx.c_str());
  lexertl::rules r; lexertl::state_machine sm; r.push(rx, 1); unsigned rev = sym_param("rev", 0); if (rev == 3) rev = 1 + sym_choice(2); for (unsigned i = 0; i < rev; ++i) r.reverse(); if (rev == 1) g.mirror();
  bool threw = false; try { lexertl::generator::build(r, sm); } catch (const lexertl::runtime_error&) { threw = true; }
  sym_assert(threw == g.nullable(), "accepted iff not nullable");
  if (threw) { sym_cover("nullable"); return; }
  char t[MAXL]; sym_bytes(t, L); lexertl::cmatch m(t, t + L); lexertl::lookup(sm, m);
  Text T; T.L = L; for (int i = 0; i < L; ++i) T.cls[i] = ct.tab[(unsigned char)t[i]];
  mask M[MAXL + 1]; T.eval(g, g.root, M); int h = high(M[0]); int len = m.second - m.first;
  if (m.id == 1) { sym_cover("match"); sym_assert(h == len, "longest match length"); }
  else { sym_cover("nomatch"); CHECK(m.id == lexertl::cmatch::npos()); CHECK(len == 1); sym_assert(h < 0, "no match although the regex matches"); }
  sym_observe(1, m.id); sym_observe(2, len);
}
