// A lexer description with reference semantics (simulated directly on the text)
// and its translation into the library's rules API.
#pragma once
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include "oracle.h"
namespace orc {
const u32 K_ID = 0, K_SKIP = 1, K_NOID = 2;
struct Rule {
  Regex g; bool bol = false, eol = false; u32 states = 1; int kind = 0; u32 id = 0; long uid = -1; int act = 0, next = 0, exit = -1; // act 0 '.', 1 goto, 2 push, 3 pop
  std::string raw;  // overrides the rendered text when not empty
  bool part = false; // an alternative of the rule before it (whose text holds the whole rule, anchors included)
  bool whole = false; // raw already holds the anchors
};
template<class C> std::basic_string<C> widen(const std::string& s) { std::basic_string<C> r; for (unsigned char c : s) r += (C)c; return r; }
inline std::string stname(int i) { return i == 0 ? "INITIAL" : std::string("S") + char(i < 10 ? '0' + i : 'a' + i - 10); }
struct Spec {
  Rule r[8]; int n = 0, ns = 1; size_t flags = *lexertl::regex_flags::dot_not_newline | *lexertl::regex_flags::allow_suppressed_rules;
  bool simple = false; // use the plain (regex,id) overloads
  template<class R> void add(R& rules) const {
    typedef typename R::rules_char_type C; typedef typename R::id_type I;
    for (int s = 1; s < ns; ++s) rules.push_state(widen<C>(stname(s)).c_str());
    for (int k = 0; k < n; ++k) { const Rule& x = r[k]; if (x.part) continue;
      std::string t = x.raw.empty() ? rtext(x) : x.raw;
      if (!x.whole) { if (x.bol) t = "^" + t; if (x.eol) t += "$"; }
      I id = x.kind == K_SKIP ? R::skip() : (I)x.id; std::basic_string<C> rx = widen<C>(t);
      if (simple && x.states == 1 && x.act == 0 && x.kind != K_NOID) { if (x.uid >= 0) rules.push(rx, id, (I)x.uid); else rules.push(rx, id); continue; }
      std::string cur; if (x.states == (1u << ns) - 1 && ns > 1) cur = "*"; else for (int s = 0; s < ns; ++s) if (x.states >> s & 1) { if (!cur.empty()) cur += ','; cur += stname(s); }
      std::string nx = x.act == 0 ? "." : x.act == 1 ? stname(x.next) : x.act == 3 ? "<" : ">" + stname(x.next) + (x.exit >= 0 ? ":" + stname(x.exit) : "");
      std::basic_string<C> c = widen<C>(cur), d = widen<C>(nx);
      if (x.kind == K_NOID) rules.push(c.c_str(), rx, d.c_str());
      else if (x.uid >= 0) rules.push(c.c_str(), rx, id, d.c_str(), (I)x.uid);
      else rules.push(c.c_str(), rx, id, d.c_str()); } }
  static std::string rtext(const Rule& x) { std::string s; x.g.render(x.g.root, (x.bol || x.eol) ? 1 : 0, s); return s; }
};
// reference state
struct RefState { int pos = 0, first = 0; int state = 0; int sp = 0; struct { int st, id; } stk[16]; bool eoi = false; long id = 0, uid = -1; bool underflow = false; };
const long NPOS = -1, SKIP = -2;
template<class C> struct Ref {
  const Spec& s; Text T; const C* t; int L; mask M[8][MAXL + 1]; mask eolm; mask bolm; bool init_bol;
  Ref(const Spec& sp, const C* text, int len, const u32* tab, u32 hi, bool ibol = true) : s(sp), t(text), L(len), init_bol(ibol) {
    T.L = len; typedef typename std::make_unsigned<C>::type U;
    eolm = (mask)1 << L; bolm = 0;
    for (int i = 0; i < len; ++i) { U c = (U)t[i]; u32 v = tab[c & 255]; if (sizeof(C) > 1) v = (c >> 4 >> 4) ? hi : v; T.cls[i] = v; eolm |= (mask)(c == '\n' | c == '\r') << i; bolm |= (mask)(c == '\n') << (i + 1); }
    bolm |= (mask)init_bol;
    for (int k = 0; k < s.n; ++k) { T.eval(s.r[k].g, s.r[k].g.root, M[k]);
      for (int i = 0; i <= L; ++i) { if (s.r[k].eol) M[k][i] &= eolm; if (s.r[k].bol) M[k][i] &= Text::sel(bolm, i); M[k][i] &= ~((mask)1 << i); } } }
  // best match at pos in state: returns end (or -1) and rule, concretised
  void best(int pos, int st, int& end, int& rule) const {
    // a '$' that holds counts as one (virtual) character beyond the text
    int e = -1, ru = 0;
    for (int k = 0; k < s.n; ++k) if (s.r[k].states >> st & 1) { int h = high(M[k][pos]); int sc = 2 * h + (s.r[k].eol ? 1 : 0); sc = h < 0 ? -1 : sc; bool b = sc > e; ru = b ? k : ru; e = b ? sc : e; }
    uint64_t v = sym_conc((uint64_t)(uint32_t)((e >> 1) + 1) * 16 + (uint32_t)ru); end = (int)(v / 16) - 1; rule = (int)(v % 16);
  }
  // '$' next to rules that consume line breaks: which of the clashing rules wins is unspecified, but the
  // match reported is a match of its rule, and exact when no '$' rule matches here (see known_findings.txt)
  void weak(RefState& x, u32 id, int first, int second) const {
    x.first = x.pos; if (x.pos == L) { x.id = 0; x.uid = NPOS; x.eoi = true; return; }
    int e = -1, ru = 0, d = -1;
    for (int k = 0; k < s.n; ++k) { int h = high(M[k][x.pos]); bool b = h > e; ru = b ? k : ru; e = b ? h : e; if (s.r[k].eol) d = h > d ? h : d; }
    mask ok = (mask)0; for (int k = 0; k < s.n; ++k) if (s.r[k].id == id) ok = M[k][x.pos];
    bool none = id == (uint16_t)NPOS; sym_assert(first == x.pos, "token start");
    if (none) { sym_assert((d >= 0) | (e < 0), "a rule matches but nothing is reported"); sym_assert(second == x.pos + 1, "length of an unmatched character"); }
    else { sym_assert((ok >> second) & 1, "reported text is not a match of the reported rule");
      sym_assert((d >= 0) | ((second == e) & (id == s.r[0].id ? ru == 0 : id == s.r[1].id ? ru == 1 : ru == 2)), "longest match, first rule"); }
    x.pos = second; x.id = none ? NPOS : (long)id; }
  void next(RefState& x) const {
    x.first = x.pos;
    for (;;) {
      if (x.pos == L) { x.id = 0; x.uid = NPOS; x.eoi = true; return; }
      int e, k; best(x.pos, x.state, e, k);
      if (e < 0) { x.first = x.pos; ++x.pos; x.id = NPOS; x.uid = NPOS; return; }
      const Rule& r = s.r[k]; x.pos = e; bool again = r.kind == K_NOID;
      if (r.act == 2) { x.stk[x.sp].st = r.exit >= 0 ? r.exit : x.state; x.stk[x.sp++].id = r.kind == K_NOID ? 0 : r.kind == K_SKIP ? (int)SKIP : (int)r.id; x.state = r.next; }
      else if (r.act == 3) { if (!x.sp) { x.underflow = true; return; } --x.sp; x.state = x.stk[x.sp].st; if (x.sp && x.stk[x.sp - 1].id == 0) again = true; }
      else if (r.act == 1) x.state = r.next;
      if (r.kind == K_SKIP) { x.first = x.pos; continue; }
      if (again) continue;
      x.id = r.id; x.uid = r.uid; return;
    }
  }
  bool bol(int pos) const { return (bolm >> pos) & 1; }
};
// library types per character type
template<class C, class I = uint16_t> struct Lib {
  typedef lexertl::basic_rules<C, C, I> rules; typedef lexertl::basic_state_machine<C, I> sm; typedef lexertl::basic_generator<rules, sm> gen;
  typedef lexertl::match_results<const C*, I> res; typedef lexertl::recursive_match_results<const C*, I> rres;
};
}
