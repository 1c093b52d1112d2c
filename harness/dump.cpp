// C32: the text dump of a machine, read back into a character machine and walked next to lookup().
#include "walk.h"
#include <lexertl/debug.hpp>
#include <sstream>
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
using namespace orc; typedef Lib<CH, IDT> LB; typedef lexertl::basic_char_state_machine<CH, IDT> CSM; typedef lexertl::basic_debug<LB::sm, CH, IDT> DBG;
typedef std::basic_string<CH> S;
struct Rd { const S& s; size_t p = 0; Rd(const S& x) : s(x) {}
  bool is(const char* k) const { size_t q = p; for (; *k; ++k, ++q) if (q >= s.size() || s[q] != (CH)*k) return false; return true; }
  bool eat(const char* k) { if (!is(k)) return false; while (*k++) ++p; return true; }
  void need(const char* k) { if (!eat(k)) sym_assert(0, k); }
  bool dig() const { return p < s.size() && s[p] >= '0' && s[p] <= '9'; }
  uint64_t num() { if (!dig()) sym_assert(0, "number"); uint64_t v = 0; while (dig()) v = v * 10 + (s[p++] - '0'); return v; }
  static int hex(CH c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  // one character as the regex reader of the library takes it
  u32 chr() { if (p >= s.size()) { sym_assert(0, "charset ends"); return 0; } typedef std::make_unsigned<CH>::type U; u32 c = (U)s[p++]; sym_assert(c >= 32 && c < 127, "printable"); if (c != '\\') return c;
    c = (U)s[p++]; switch (c) { case 'a': return 7; case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case 'v': return 11; case 'e': return 27;
      case 'x': { u32 v = 0; int n = 0; while (p < s.size() && hex(s[p]) >= 0) { v = v * 16 + hex(s[p++]); ++n; } sym_assert(n > 0 && n <= 6, "hex escape"); return v; } }
    if (c >= '0' && c <= '7') { u32 v = c - '0'; for (int n = 1; n < 3 && p < s.size() && s[p] >= '0' && s[p] <= '7'; ++n) v = v * 8 + (s[p++] - '0'); return v; }
    sym_assert(!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9'), "known escape"); return c; }
  void set(CSM::string_token& o) {
    typedef CSM::string_token::index_type X; std::vector<std::pair<u32, u32>> r; u32 max = sizeof(CH) == 1 ? 255 : 0x10ffff;
    if (!eat("[")) { sym_assert(!is(".") && !is("(") && !is(")") && !is("|") && !is("*") && !is("+") && !is("?") && !is("{") && !is("}") && !is("]") && !is("/") && !is("$") && !is("^") && !is("\""), "a special character stands for itself"); u32 c = chr(); o._ranges.emplace_back((X)c, (X)c); return; }
    bool neg = eat("^"); while (!is("]") && p < s.size()) { u32 a = chr(), b = a; if (is("-") ) { ++p; if (is("]")) { sym_assert(0, "unescaped -"); } b = chr(); } sym_assert(a <= b && b <= max, "range"); r.push_back({ a, b }); if (r.size() > 600) { sym_assert(0, "charset too long"); return; } }
    need("]"); sym_assert(!r.empty(), "empty set");
    for (size_t i = 0; i + 1 < r.size(); ++i) sym_assert(r[i].second < r[i + 1].first, "ranges in order");
    if (!neg) { for (auto& x : r) o._ranges.emplace_back((X)x.first, (X)x.second); return; }
    u32 at = 0; bool done = false; for (auto& x : r) { if (x.first > at) o._ranges.emplace_back((X)at, (X)(x.first - 1)); at = x.second + 1; done = x.second == max; } if (!done) o._ranges.emplace_back((X)at, (X)max); }
  void machine(CSM& m, const Fam& f, bool names) {
    while (p < s.size()) {
      need("Lexer state: "); size_t n = m._sm_vector.size(); if (names) need(stname(n).c_str()); else CHECK(num() == n); need("\n\n"); m._sm_vector.emplace_back(0); auto& d = m._sm_vector.back();
      while (is("State: ")) { need("State: "); CHECK(num() == d._states.size()); need("\n"); d._states.emplace_back(); auto& st = d._states.back();
        if (eat("  END STATE")) { st._end_state = true; typedef CSM::state ST;
          if (eat(", PUSH ")) { st._push_pop_dfa = ST::push_pop_dfa::push_dfa; st._push_dfa = (IDT)num(); } else if (eat(", POP")) st._push_pop_dfa = ST::push_pop_dfa::pop_dfa;
          need(", Id = "); st._id = (IDT)num(); need(", User Id = "); st._user_id = (IDT)num(); need(", dfa = "); st._next_dfa = (IDT)num(); need("\n"); sym_cover("end state"); }
        if (eat("  BOL -> ")) { CHECK(d._states.size() == 1); d._bol_index = (IDT)num(); need("\n"); sym_cover("BOL"); }
        if (eat("  EOL -> ")) { st._eol_index = (IDT)num(); need("\n"); sym_cover("EOL"); }
        while (is("  ")) { p += 2; std::pair<IDT, CSM::string_token> tr; set(tr.second); need(" -> "); tr.first = (IDT)num(); need("\n"); CHECK(st._transitions.insert(tr).second); }
        need("\n"); } } }
};
static void sets(Fam& f) {
  static const char* const P[] = { "[+-\\]]", "[\\]a]", "[^\\]]", "\\x01", "2", "[a\\x01]", "[b\\x01-\\x02]", "[0\\x00]", "[-a]", "[\\^a]", "[^\\-]", "[\\\\c]", "\\]", "[A-\\]]", "[\\]-a]", "[\\--\\]]", "[^\\x00-\\x05]", ".", "[\\x7e-\\x90]", "[3\\x1b]", "\\\"", "\\x7f", "\\$", "\\^", "[[:punct:]]", "[\\n\\r]", "[a-fx]", "\\xff", "[!-~]", "'", "\\[", "[[]", "[\\x0f-\\x10g\\x62]" };
  unsigned n = sizeof P / sizeof *P, a = f.pick(n), b = f.ch(n); f.s.simple = true; f.s.flags = *lexertl::regex_flags::allow_suppressed_rules; f.s.n = 2; f.s.r[0].raw = std::string("(") + P[a] + ")(" + P[b] + ")"; f.s.r[0].id = 20; f.s.r[1].raw = "1?(" + std::string(P[b]) + ")"; f.s.r[1].id = 21; }
void harness() {
  Fam f; int fam = sym_param("fam", 1), L = sym_param("L", 3); if (fam == 30) sets(f); else f.make(fam);
  if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm; f.s.add(r); LB::gen::build(r, sm); if (sym_choice(2)) { sm.minimise(); sym_cover("minimised"); }
  bool names = sym_choice(2), direct = sizeof(CH) > 1 || sym_choice(2); std::basic_ostringstream<CH> os;
  if (direct) { LB::rules r2(f.s.flags); f.s.add(r2); CSM c; lexertl::basic_generator<LB::rules, CSM>::build(r2, c); if (names) DBG::dump(c, r2, os); else DBG::dump(c, os); sym_cover("char machine"); }
  else if (names) DBG::dump(sm, r, os); else DBG::dump(sm, os);
  S text = os.str(); CSM m; Rd rd(text); rd.machine(m, f, names); CHECK(m._sm_vector.size() == (size_t)f.s.ns);
  CH t[MAXL]; sym_text(t, L); bool hasbol = false; for (int k = 0; k < f.s.n; ++k) hasbol |= f.s.r[k].bol;
  auto go = [&](auto x) { CWalk<CSM, CH> n(m, t, L, f.rec);
    for (int i = 0; i <= L; ++i) { Tok a = step(sm, x, t), b = n.next(); same(a, b, "the dump describes the machine", hasbol); sym_observe(1, a.id); sym_observe(2, a.second); if (a.threw) { sym_cover("underflow"); return; } if (a.id == 0) sym_cover("eoi"); else sym_cover(a.id == LB::res::npos() ? "nomatch" : "match"); if (a.id == 0 && a.first == L) return; } };
  if (f.rec) go(LB::rres(t, t + L)); else go(LB::res(t, t + L));
}
