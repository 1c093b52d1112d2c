// C26: any regex text is accepted or rejected with lexertl::runtime_error; never a crash, another exception or an access outside the text.
#include "sym.h"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <string>
#ifndef CH
#define CH char
#endif
#ifndef RC
#define RC char
#endif
typedef std::basic_string<RC> S; typedef lexertl::basic_rules<RC, CH> R; typedef lexertl::basic_state_machine<CH> SM; typedef lexertl::basic_generator<R, SM> G; typedef lexertl::match_results<const CH*> MR;
template<class F> static int guarded(F f) { try { f(); return 1; } catch (const lexertl::runtime_error&) { return 0; } catch (const std::exception&) { sym_assert(0, "another exception"); } catch (...) { sym_assert(0, "another exception"); } return 0; }
static const char* const P[] = { "a", "(", ")", "[", "]", "^", "$", ".", "*", "?", "+", "|", "{2}", "{0,1}", "{1,", "}", "-", "\\", "x", "0", "{+}", "{-}", "(?i:", "\"", "[:", ":]", "alpha", "\\d", "/", "(?#", "p{L", "b" };
void harness() {
  int mode = sym_param("mode", 0), n = sym_param("n", 3); unsigned fl = sym_param("flags", 2); S re;
  if (mode == 0) { // every text of n bytes
    RC b[16]; sym_bytes(b, n * sizeof(RC)); for (int i = 0; i < n; ++i) if (sizeof(RC) > 1) sym_assume(((uint8_t*)(b + i))[sizeof(RC) - 1] == 0);
    int pre = sym_param("pre", 0); static const char* const PRE[] = { "", "[", "\\", "(?", "a{", "[[:", "\\p{", "\\x", "[a-", "a{1", "\"", "(?#", "[\\", "a{1,", "(?i", "[^", "\\c", "/*", "[a]{", "\\p{I" }; for (const char* q = PRE[pre]; *q; ++q) re += (RC)*q; re.append(b, n); }
  else { int np = sizeof P / sizeof *P; int first = sym_param("lo", 0), w = sym_param("w", np); for (int i = 0; i < n; ++i) { const char* q = P[i ? sym_choice(np) : first + sym_choice(w)]; while (*q) re += (RC)*q++; } }
  R r(fl); int ok;
  if (sym_param("macro", 0)) { ok = guarded([&] { const RC m[2] = { 'M', 0 }; r.insert_macro(m, re); }); if (!ok) { const RC m[2] = { 'M', 0 }; sym_assert(guarded([&] { r.insert_macro(m, S(1, (RC)'a')); }), "a rejected macro leaves nothing behind"); } sym_cover(ok ? "accepted" : "rejected"); return; }
  ok = guarded([&] { r.push(re, 1); }); sym_observe(1, ok);
  if (!ok) { sym_assert(r.regexes()[0].empty() && r.ids()[0].empty(), "a rejected rule leaves nothing behind"); sym_cover("rejected"); return; }
  sym_cover("accepted"); if (mode == 0) return;
  SM sm; ok = guarded([&] { G::build(r, sm); }); if (!ok) { CHECK(sm.empty()); sym_cover("not built"); return; }
  sm.minimise(); sym_cover("built"); CH t[3]; int L = sym_param("L", 2); sym_text(t, L); MR m(t, t + L); int k = 0;
  for (; k <= 2 * L + 1; ++k) { lexertl::lookup(sm, m); sym_assert(m.first >= t && m.second <= t + L && m.first <= m.second, "the result lies in the text"); if (m.id == 0) break; if (fl & 16) return;
    if (m.second == m.first) { sym_assert(!re.empty() && re.back() == '$' && m.first < t + L && (*m.first == '\n' || *m.first == '\r'), "progress"); sym_cover("lexed"); return; } } // '$' rules with an empty body: see known_findings.txt
  sym_assert(k <= L, "the end is reached"); sym_cover("lexed");
}
