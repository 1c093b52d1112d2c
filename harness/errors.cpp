// C34: building fails exactly for lexers with a rule that can match nothing or can never win.
#include "walk.h"
#ifndef CH
#define CH char
#endif
using namespace orc;
typedef Lib<CH> LB;
static int rules_of(Fam& f) {
  static const char* const P[] = { "a", "ab", "[ab]+", "a*b", "(a|b)c?", "(ab|c)+", "a*", "b?c?", "(a?b?){2}", "(a?b?){2}c", "a{0,2}", "a{1,2}|b*", "(a|b)(a|b)", "a+|bc", "[abc]", "(a*|b+)c*", "a(b|c*)", "ab{0,1}" };
  Spec& s = f.s; int k = sym_param("rules", 2); s.ns = 1 + f.ch(2); s.simple = s.ns == 1;
  for (int i = 0; i < k; ++i) { Rule& r = f.rule(P[f.pick(18)], 10 + i); if (s.ns > 1) { r.states = 1 + f.ch(3); r.kind = i == 1 && k < 3 ? f.ch(3) : 0; } unsigned a = k < 3 ? f.ch(4) : i == 1 ? f.ch(2) * 2 : 0; r.bol = a & 1; r.eol = a >> 1; if ((r.bol || r.eol) && r.g.nd[r.g.root].k == ALT) r.raw = "(" + r.raw + ")"; }
  return k; }
static std::string rx(const Rule& r) { return std::string(r.bol ? "^" : "") + r.raw + (r.eol ? "$" : ""); }
// with match_zero_len the empty text belongs to the first rule that can be empty
static bool zwin(const Spec& s, const bool* nullable, unsigned fl, int k, int st) { if (!(fl & 2) || !nullable[k]) return false; for (int j = 0; j < k; ++j) if (nullable[j] && (s.r[j].states >> st & 1)) return false; return true; }
void harness() {
  Fam f; int fam = sym_param("fam", 0); if (fam) f.make(fam); else rules_of(f); if (f.thinned()) { sym_cover("thinned"); return; }
  int L = sym_param("L", 4); unsigned fl = f.ch(4); f.s.flags = *lexertl::regex_flags::dot_not_newline | (fl & 1 ? *lexertl::regex_flags::allow_suppressed_rules : 0) | (fl & 2 ? *lexertl::regex_flags::match_zero_len : 0);
  const Spec& s = f.s; std::string msg; bool threw = false; LB::rules r(s.flags); s.add(r); LB::sm sm;
  try { LB::gen::build(r, sm); } catch (const lexertl::runtime_error& e) { threw = true; msg = e.what(); }
  // the reference verdict
  u32 seen = 0; for (int k = 0; k < s.n; ++k) seen |= s.r[k].states; bool hole = seen != (1u << s.ns) - 1;
  bool nullable[8] = {}; bool zero = false; for (int k = 0; k < s.n; ++k) { Text t; mask M[MAXL + 1]; t.eval(s.r[k].g, s.r[k].g.root, M); nullable[k] = (M[0] & 1) && !s.r[k].bol && !s.r[k].eol; zero |= nullable[k]; }
  for (int k = 0; k < s.n; ++k) if (s.r[k].bol || s.r[k].eol) { Text t; mask M[MAXL + 1]; t.eval(s.r[k].g, s.r[k].g.root, M); if (M[0] & 1) { sym_cover("anchored nothing"); return; } }
  CH t[MAXL]; sym_text(t, L); int win[8][4] = {};
  for (int n = 1; n <= L; ++n) for (int b = 0; b < 2; ++b) { Ref<CH> ref(s, t, n, f.ct.tab, f.ct.hi, b);
    for (int st = 0; st < s.ns; ++st) { int e = -1, ru = 0; for (int k = 0; k < s.n; ++k) if (s.r[k].states >> st & 1) { int h = high(ref.M[k][0]); int sc = 2 * h + (s.r[k].eol ? 1 : 0); sc = h < 0 ? -1 : sc; bool w = sc > e; ru = w ? k : ru; e = w ? sc : e; }
      for (int k = 0; k < s.n; ++k) win[k][st] |= (e >= 0) & (ru == k); } }
  bool hidden[8] = {}, hid = false; for (int k = 0; k < s.n; ++k) for (int st = 0; st < s.ns; ++st) if ((s.r[k].states >> st & 1) && !zwin(s, nullable, fl, k, st) && !sym_exists(win[k][st])) { hidden[k] = true; hid = true; }
  bool bad = hole || (zero && !(fl & 2)) || (hid && !(fl & 1)); sym_observe(1, bad); sym_observe(2, hid);
  if (!threw) { sym_assert(!hole, "built a lexer with an empty state"); sym_assert(!zero || (fl & 2), "built a lexer with a rule that matches nothing"); sym_assert(!hid || (fl & 1), "built a lexer with a rule that can never be reported"); sym_cover(hid || zero ? "allowed" : "built"); return; }
  sym_assert(bad, "rejected a lexer whose rules all match something and can all be reported");
  bool named = false; size_t q = msg.find(": "), z = msg.find('\n'); std::string nm = q == std::string::npos || z == std::string::npos ? std::string() : msg.substr(q + 2, z - q - 2);
  for (int k = 0; k < s.n; ++k) if (nm == rx(s.r[k])) { if (msg.find("zero") != std::string::npos) named |= nullable[k] && !(fl & 2); else named |= hidden[k] && !(fl & 1); }
  if (msg.find("no rules") != std::string::npos) { named = hole; sym_cover("empty state"); } else sym_cover(msg.find("zero") != std::string::npos ? "matches nothing" : "never wins");
  sym_assert(named, "the error names a rule that has the problem");
}
