// Wide charsets against the Unicode data files shipped with the project: property names (mode 10)
// and ignore case (mode 9).  unidata.h is made from /repo/gen_unicode_hpp on every run.
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "oracle.h"
#include "unidata.h"
#include "pages.h"
#ifndef CH
#define CH char32_t
#endif
using namespace orc;
typedef lexertl::basic_rules<char, CH> rules_t; typedef lexertl::basic_state_machine<CH> sm_t; typedef lexertl::basic_generator<rules_t, sm_t> gen_t; typedef lexertl::match_results<const CH*> res_t;
static void hex(std::string& s, u32 v) { static const char* d = "0123456789abcdef"; s += "\\x"; bool on = false; for (int k = 20; k >= 0; k -= 4) { u32 x = v >> k & 15; if (x || on || !k) { s += d[x]; on = true; } } }
static Pages pg;
static u32 buf[8192][2]; static int nb;
static void put(u32 a, u32 b) { // keeps the ranges sorted and merged
  int i = 0; while (i < nb && buf[i][1] + 1 < a) ++i;
  if (i == nb || b + 1 < buf[i][0]) { for (int k = nb; k > i; --k) { buf[k][0] = buf[k - 1][0]; buf[k][1] = buf[k - 1][1]; } buf[i][0] = a; buf[i][1] = b; ++nb; return; }
  if (a < buf[i][0]) buf[i][0] = a; if (b > buf[i][1]) buf[i][1] = b;
  while (i + 1 < nb && buf[i + 1][0] <= buf[i][1] + 1) { if (buf[i + 1][1] > buf[i][1]) buf[i][1] = buf[i + 1][1]; for (int k = i + 1; k + 1 < nb; ++k) { buf[k][0] = buf[k + 1][0]; buf[k][1] = buf[k + 1][1]; } --nb; } }
static unsigned choose(unsigned n) { unsigned hi = sym_choice((n + 31) / 32), lo = sym_choice(n - hi * 32 < 32 ? n - hi * 32 : 32); return hi * 32 + lo; }
void harness() {
  unsigned parts = sym_param("parts", 1), p0 = sym_param("p0", 0), thin = sym_param("thin", 1); int mode = sym_param("mode", 10); std::string rx; unsigned flags = 2, neg = 0; nb = 0; unsigned h;
  if (mode == 10) {
    unsigned from = sym_param("from", 0), n = sym_param("count", NPROP); if (from + n > NPROP) n = NPROP - from;
    unsigned k = from + choose((n + parts - 1 - p0) / parts) * parts + p0; const Prop& p = PROPS[k]; unsigned form = sym_choice(3); neg = form == 1; h = k * 3 + form;
    if ((form == 2 && (h * 2654435761u >> 8) % 7) || (form && thin > 1 && (p.n > 40 || (h * 2654435761u >> 8) % 3))) { sym_cover("thinned"); return; }
    rx = form == 0 ? std::string("\\p{") + p.name + "}" : std::string(form == 1 ? "[^\\p{" : "[_\\p{") + p.name + "}]";
    for (int i = 0; i < p.n; ++i) put(RANGES[p.at + i][0], RANGES[p.at + i][1]); if (form == 2) put('_', '_');
  } else {
    unsigned k = choose((NCASE + parts - 1 - p0) / parts) * parts + p0; u32 lo = CASES[k][0], hi = CASES[k][1]; if (sizeof(CH) == 2 && hi > 0xffff) { sym_cover("thinned"); return; } h = k;
    unsigned form = (h * 2654435761u >> 9) % 4; flags = 1; if (form == 3) { flags = 2; }
    if (lo == hi && form != 1 && form != 3) hex(rx, lo); else { neg = form == 1 && !(lo == 0 && hi > 0xfffe); rx = neg ? "[^" : "["; hex(rx, lo); if (lo != hi) { rx += '-'; hex(rx, hi); } rx += ']'; }
    if (form == 2) { flags = 2; rx = "(?i:" + rx + ")"; }
    put(lo, hi); if (form != 3) for (int i = 0; i < NLINK; ++i) if (LINKS[i][0] >= lo && LINKS[i][0] <= hi && (sizeof(CH) > 2 || LINKS[i][1] < 0x10000)) put(LINKS[i][1], LINKS[i][1]);
    if (form == 3) sym_cover("case kept"); else if (neg) sym_cover("negated");
  }
  if (mode == 9 && thin > 1 && (h * 2654435761u >> 8) % thin) { sym_cover("thinned"); return; }
  rules_t r(flags); sm_t sm; bool rejected = false; int L = 1;
  try { r.push(rx, 1); gen_t::build(r, sm); } catch (const lexertl::runtime_error&) { rejected = true; }
  const u32 mx = sizeof(CH) == 2 ? 0xffff : 0x10ffff; bool all = nb == 1 && buf[0][0] == 0 && buf[0][1] >= mx;
  sym_assert(rejected == (neg && all), "accepted"); if (rejected) return;
  pg.build(buf, nb, mx); CH t[1]; sym_text(t, L); res_t m(t, t + L); lexertl::lookup(sm, m); u32 in = pg.has(t[0]) ^ neg;
  CHECK(m.second == t + 1);
  if (m.id == 1) { sym_cover("match"); sym_assert(in == 1, "character outside the charset matched"); } else { sym_cover("nomatch"); CHECK(m.id == res_t::npos()); sym_assert(in == 0, "character of the charset not matched"); }
  sym_observe(1, m.id);
}
