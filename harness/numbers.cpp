// Numbers in regexes too large for any integer type: rejected, never reduced modulo 2^64.  mode 0: \x escapes (C33), mode 1: repeat counts (C03).
#include "sym.h"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <string>
void harness() { int mode = sym_param("mode", 0), k = sym_param("lo", 1) + sym_choice(sym_param("w", 1)); // k digits follow the first, symbolic one
  char d; sym_text(&d, 1); bool hex = sym_and(d >= 'a', d <= 'f'); sym_assume(sym_and(d >= '0', d <= '9') | sym_and(mode == 0, hex));
  std::string z(k - 1, '0'), re; re += d;
  re = mode == 0 ? "\\x" + re + z + "1" : sym_param("min", 0) ? "a{1," + re + z + "2}" : "a{" + re + z + "2}";
  bool small = d == '0' || (mode == 0 && k == 1);
  lexertl::rules r; bool ok = true; try { r.push(re, 1); } catch (const lexertl::runtime_error&) { ok = false; }
  if (mode == 0) sym_assert(ok == small, "a character code out of range is rejected");
  else if (small) sym_assert(ok, "accepted"); else if (k >= 20 || (k == 19 && d >= '2')) sym_assert(!ok, "a count out of range is rejected");
  sym_observe(1, ok); if (!ok) { sym_cover("rejected number"); return; } if (!small) return; // a tree that size cannot be built
  lexertl::state_machine sm; lexertl::generator::build(r, sm); char t[2]; sym_text(t, 2); lexertl::cmatch m(t, t + 2); lexertl::lookup(sm, m);
  if (mode == 0) { int c = d == '0' ? 1 : (d <= '9' ? d - '0' : d - 'a' + 10) * 16 + 1; sym_assert((m.id == 1) == ((unsigned char)t[0] == c), "denotes its character"); }
  else if (sym_param("min", 0)) sym_assert((m.id == 1) == (t[0] == 'a') && (m.id != 1 || (m.second == t + 2) == (t[1] == 'a')), "counts"); else sym_assert((m.id == 1) == sym_and(t[0] == 'a', t[1] == 'a'), "counts");
  sym_cover("number"); }
