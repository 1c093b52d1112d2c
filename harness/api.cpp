// C28: which rule, state and macro definitions are accepted, and where an accepted rule takes effect.
#include "walk.h"
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
using namespace orc;
typedef Lib<CH, IDT> LB; typedef std::basic_string<CH> S; typedef typename std::make_unsigned<CH>::type U;
static S w(const char* s) { return widen<CH>(s); }
static bool first_ok(CH x) { U c = (U)x; return (bool)((c == '_') | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z'))); }
static bool rest_ok(CH x) { U c = (U)x; return (bool)((c == '_') | (c == '-') | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9'))); }
static bool name_ok(const CH* s, int n) { bool r = n > 0; for (int i = 0; i < n; ++i) r = sym_and(r, i ? rest_ok(s[i]) : first_ok(s[i])); return r; }
template<class F> static bool rejects(F f) { bool t = false; try { f(); } catch (const lexertl::runtime_error& e) { t = true; CHECK(*e.what() != 0); } return t; }
static void text(CH* t, int n) { // wide: every character up to 0x1ff
  for (int i = 0; i < n; ++i) { unsigned v = (uint8_t)sym_byte(); if (sizeof(CH) > 1 && !sym_param("low", 0)) { uint8_t h = sym_byte(); sym_assume(h <= 1); v += 256u * h; } t[i] = (CH)v; } for (int i = 0; i < n; ++i) sym_assume(t[i] != 0); t[n] = 0; }
static S all(const LB::sm& sm, IDT st) { static const CH in[] = { 'a', 'b', 'z', 0 }; typename LB::rres m(in, in + 3, true, st); S r; for (int i = 0; i < 4; ++i) { lexertl::lookup(sm, m); r += (CH)m.id; r += (CH)m.user_id; r += (CH)m.state; r += (CH)m.stack.size(); if (m.id == 0) break; } return r; }

static void states() { // a state name of n symbolic characters
  LB::rules r; r.push_state(w("A").c_str()); int n = sym_choice(4); CH t[8]; text(t, n); bool ok = name_ok(t, n); bool known = sym_and(n == 1, t[0] == 'A');
  IDT got = 77; bool bad = rejects([&] { got = r.push_state(t); }); CHECK(bad == !ok);
  if (bad) { CHECK(r.statemap().size() == 2); CHECK(r.state(IDT(2)) == nullptr); sym_cover("bad state"); return; }
  CHECK(got == (known ? 1 : 2)); CHECK(r.state(t) == got); CHECK(S(r.state(got)) == t); CHECK(r.statemap().size() == (known ? 2u : 3u)); CHECK(r.push_state(t) == got); CHECK(r.push_state(w("INITIAL").c_str()) == 0); CHECK(r.state(w("INITIAL").c_str()) == 0); if (known) sym_cover("known state"); else sym_cover("new state"); }

static void macros() {
  LB::rules r; r.insert_macro(w("M").c_str(), w("x")); int n = sym_choice(3); CH t[8]; text(t, n); bool ok = sym_and(name_ok(t, n), !sym_and(n == 1, t[0] == 'M'));
  bool bad = rejects([&] { r.insert_macro(t, w("z")); }); CHECK(bad == !ok); if (bad) { CHECK(r.macros().size() == 1); sym_cover("bad macro"); }
  else { CHECK(rejects([&] { r.insert_macro(t, w("y")); })); }
  // the macro just defined can be used, others cannot
  CH u = (CH)sym_byte(); sym_assume(sym_and(first_ok(u), true)); S rx = w("{"); rx += u; rx += (CH)'}';
  bool def = (bool)((u == 'M') | sym_and(sym_and(!bad, n == 1), t[0] == u)); bool rej = rejects([&] { r.push(rx, 5); }); CHECK(rej == !def);
  if (rej) { CHECK(r.empty()); sym_cover("undefined macro"); return; }
  LB::sm sm; LB::gen::build(r, sm); CH in[2]; in[0] = u == 'M' ? 'x' : 'z'; in[1] = 0; LB::res m(in, in + 1); lexertl::lookup(sm, m); CHECK(m.id == 5); sym_cover("macro used"); }

static void badmacro() { // a rejected macro leaves no trace
  static const char* const B[] = { "(", "a|", "[z-a]", "{N}", "{M}", "a{2,1}", "\\", "" }; LB::rules r; unsigned k = sym_choice(8); r.insert_macro(w("K").c_str(), w("k"));
  CHECK(rejects([&] { r.insert_macro(w("M").c_str(), w(B[k])); })); CHECK(r.macros().size() == 1); CHECK(rejects([&] { r.push(w("{M}"), 5); })); CHECK(r.empty());
  r.insert_macro(w("M").c_str(), w("q")); r.push(w("{M}{K}"), 5); LB::sm sm; LB::gen::build(r, sm); CH in[3] = { 'q', 'k', 0 }; LB::res m(in, in + 2); lexertl::lookup(sm, m); CHECK(m.id == 5); CHECK(m.second == in + 2); sym_cover("macro redefined"); }

static void ids() { // every id and user id
  IDT id = 0, uid = 0; sym_bytes(&id, sizeof id); sym_bytes(&uid, sizeof uid); unsigned how = sym_choice(6); LB::rules r; r.push_state(w("A").c_str()); r.push(w("A").c_str(), w("b"), 9, w(".").c_str()); S in0 = w("INITIAL"), in1 = w("a"), dot = w("."), go = w(">A:INITIAL");
  bool uses = how == 1 || how == 3 || how == 5;
  bool bad = rejects([&] { switch (how) { case 0: r.push(in1, id); break; case 1: r.push(in1.c_str(), id, uid); break; case 2: r.push(in0.c_str(), in1, id, dot.c_str()); break; case 3: r.push(in0.c_str(), in1.c_str(), id, dot.c_str(), uid); break; case 4: r.push(w("*").c_str(), in1, id, w("A").c_str()); break; case 5: r.push(in0.c_str(), in1, id, go.c_str(), uid); break; } });
  bool reserved = (bool)((id == 0) | (id == LB::rules::npos())); CHECK(bad == reserved); if (bad) { CHECK(r.regexes()[0].empty()); CHECK(r.ids()[0].empty()); sym_cover("reserved id"); return; }
  r.push(w("c"), 1); LB::sm sm; LB::gen::build(r, sm); CH in[2] = { 'a', 0 }; typename LB::rres m(in, in + 1); lexertl::lookup(sm, m);
  if (id == LB::rules::skip()) { CHECK(m.id == 0); sym_cover("skip id"); } else { CHECK(m.id == id); CHECK(m.user_id == (uses ? uid : LB::res::npos())); CHECK(m.second == in + 1); CHECK(m.state == (how >= 4 ? 1 : 0)); CHECK(m.stack.size() == (how == 5 ? 1u : 0u)); sym_cover("plain id"); } }

// reference reading of the state list and of the destination
static int name_at(const CH* s, int b, int e) { // 0 INITIAL, 1 A, 2 B, -1 not a known name
  if (e - b == 1) return s[b] == 'A' ? 1 : s[b] == 'B' ? 2 : -1; static const char I[] = "INITIAL"; if (e - b != 7) return -1; for (int i = 0; i < 7; ++i) if (s[b + i] != (CH)I[i]) return -1; return 0; }
static int len(const CH* s) { int n = 0; while (s[n]) ++n; return n; }
static bool list_ok(const CH* s, unsigned& mask) { int n = len(s); mask = 0; if (n == 1 && s[0] == '*') { mask = 7; return true; } int b = 0; for (int i = 0; i <= n; ++i) if (i == n || s[i] == ',') { int k = name_at(s, b, i); if (k < 0) return false; mask |= 1u << k; b = i + 1; } return true; }
static bool dest_ok(const CH* s, int& act, int& next, int& exit) { int n = len(s); act = 0; next = exit = -1; if (n == 1 && s[0] == '.') return true; if (n == 1 && s[0] == '<') { act = 3; return true; }
  int b = 0; act = 1; if (n && s[0] == '>') { act = 2; b = 1; } int c = -1; for (int i = b; i < n; ++i) if (s[i] == ':') { c = i; break; }
  next = name_at(s, b, c < 0 ? n : c); if (next < 0) return false; if (c >= 0) { if (act != 2) return false; exit = name_at(s, c + 1, n); if (exit < 0) return false; } return true; }
static void where() {
  LB::rules r; r.push_state(w("A").c_str()); r.push_state(w("B").c_str()); r.push(w("*").c_str(), w("b"), 9, w(".").c_str()); r.push(w("*").c_str(), w("z"), 8, w("<").c_str());
  CH cur[24], nx[24]; int side = sym_param("side", 0); static const char* const CU[] = { "INITIAL", "A", "*", "A,INITIAL" }; static const char* const NX[] = { ".", "B", ">A", ">B:INITIAL" };
  if (side == 0) { static const char* const pre[] = { "", "A,", "INITIAL,", "B,INITIAL,", "INITIAL" }; S p = w(pre[sym_choice(5)]); int n = sym_choice(4); CH t[8]; text(t, n); S s = p + S(t, n); sym_assume(!s.empty()); sym_assume(s.back() != ','); /* an empty list, and a comma at its end, have no documented meaning */ for (size_t i = 0; i <= s.size(); ++i) cur[i] = s.c_str()[i]; S q = w(NX[sym_choice(4)]); for (size_t i = 0; i <= q.size(); ++i) nx[i] = q.c_str()[i]; }
  else { static const char* const pre[] = { "", ">", ">INITIAL", ">A:", "INITIAL", ">B:INITIAL" }; S p = w(pre[sym_choice(6)]); int n = sym_choice(4); CH t[8]; text(t, n); S s = p + S(t, n); sym_assume(!s.empty()); sym_assume(!(s[0] == '<' && s.size() > 1)); /* text after '<' has no documented meaning */ for (size_t i = 0; i <= s.size(); ++i) nx[i] = s.c_str()[i]; S q = w(CU[sym_choice(4)]); for (size_t i = 0; i <= q.size(); ++i) cur[i] = q.c_str()[i]; }
  unsigned mask; int act, next, exit; bool ok = list_ok(cur, mask); ok = dest_ok(nx, act, next, exit) && ok; bool noid = sym_choice(2), badrx = sym_choice(2); S rx = w(badrx ? "a(" : "a");
  bool bad = rejects([&] { if (noid) r.push(cur, rx, nx); else r.push(cur, rx, (IDT)5, nx, (IDT)6); }); CHECK(bad == (!ok || badrx)); sym_observe(1, bad);
  bool dup = false; for (int i = 0; i < 3; ++i) { size_t want = 2 + (!bad && (mask >> i & 1)); dup |= r.regexes()[i].size() > want; sym_assert(r.regexes()[i].size() >= want, "rule missing in a state"); }
  if (bad) { for (int i = 0; i < 3; ++i) CHECK(r.regexes()[i].size() == 2 && r.ids()[i].size() == 2 && r.next_dfas()[i].size() == 2); CHECK(!dup); }
  r.flags(r.flags() | *lexertl::regex_flags::allow_suppressed_rules); LB::sm sm; LB::gen::build(r, sm);
  for (int st = 0; st < 3; ++st) { static const CH in[] = { 'a', 'b', 0 }; typename LB::rres m(in, in + 2, true, (IDT)st); bool in_ = !bad && (mask >> st & 1); bool thr = rejects([&] { lexertl::lookup(sm, m); });
    if (!in_) { CHECK(!thr); CHECK(m.id == LB::res::npos()); CHECK(m.state == st); continue; }
    if (act == 3) { CHECK(thr); continue; } CHECK(!thr); int to = act == 0 ? st : next; CHECK(m.state == to); CHECK(m.id == (noid ? 9 : 5)); CHECK(m.first == in); CHECK(m.second == in + (noid ? 2 : 1)); if (!noid) CHECK(m.user_id == 6);
    CHECK(m.stack.size() == (act == 2 ? 1u : 0u)); if (act == 2) CHECK(m.stack.top().first == (exit >= 0 ? exit : st)); }
  sym_cover(bad ? "rejected" : act == 3 ? "pop" : act == 2 ? exit >= 0 ? "push exit" : "push" : act == 1 ? "goto" : "stay"); }
void harness() { switch (sym_param("what", 0)) { case 0: states(); break; case 1: macros(); break; case 2: badmacro(); break; case 3: ids(); break; case 4: where(); break; } }
