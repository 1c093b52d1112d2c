// Families of lexer descriptions, chosen by solver-forked choices.
#pragma once
#include "lexspec.h"
namespace orc {
struct Fam {
  Spec s; ClassTab ct; int ncalls = 0; bool rec = false;
  u32 hash = 2166136261u;
  unsigned ch(unsigned n) { unsigned v = sym_choice(n); hash = (hash ^ v) * 16777619u; return v; }
  // job parameter thin=K keeps every K-th description of the family (by a hash of the choices)
  bool thinned() const { u32 k = sym_param("thin", 1); return k > 1 && (hash >> 7) % k != (u32)sym_param("thinr", 0); }
  unsigned pick(unsigned n) { if (ncalls++ == 0) { long p = sym_param("p0", -1); if (p >= 0) { hash = (hash ^ p) * 16777619u; return (unsigned)p % n; } } return ch(n); }
  Rule& rule(const char* rx, u32 id, long uid = -1) { Rule& r = s.r[s.n++]; r.raw = rx; parse(r.g, ct, rx); bool par = r.g.nd[r.g.root].k == ALT; (void)par; r.id = id; r.uid = uid; return r; }
  // --- family 1: plain priority / longest match
  void plain() {
    static const char* const P[] = { "a", "ab", "[ab]+", "a*b", "(a|b)c?", ".b", "aba", "[^a]b*", "(ab)+", "a+|bc", "a?b?c", "." };
    static const u32 ids[] = { 40000, 7, 7 }; int k = sym_param("rules", 3), np = sym_param("pool", 12);
    s.simple = sym_param("simple", 1);
    for (int i = 0; i < k; ++i) rule(P[pick(np)], ids[i] & sym_param("idmask", 0xffff), i == 1 ? 5 : i == 2 ? 65533 & sym_param("idmask", 0xffff) : -1);
  }
  // --- family 2: anchors
  void anchors() {
    static const char* const P0[] = { "a", "a+", "\\n", "[ab]", "a+b", "[^a\\r\\n]", "ab?", "\\r\\n", "b*a", "(ab)+", "ba", "(a|b)(a|b)?" };
    static const char* const Q[] = { "a", "a+", "c", "[ab]", "a+b", "[^a\\r\\n]", "ab?", "bc", "b*a", "(ab)+", "ba", "(a|b)(a|b)?" };
    int k = sym_param("rules", 2), np = sym_param("pool", 12); const char* const* P = sym_param("nonl", 0) ? Q : P0;
    for (int i = 0; i < k; ++i) { Rule& r = rule(P[pick(np)], 10 + i); unsigned a = ch(r.raw[0] == '\\' ? 2 : 4); r.bol = a & 1; r.eol = a >> 1; if (r.bol || r.eol) if (r.g.nd[r.g.root].k == ALT) r.raw = "(" + r.raw + ")"; }
    if (sym_param("catchall", 0)) rule("[^\n]", 30);
    s.simple = true;
  }
  // --- family 10: anchors on one alternative of a rule, through either form of push
  void altanch() {
    static const char* const P[] = { "a", "ab", "b+", "a+?c", "b", "c+", "(a|b)c", "b+?a" };
    unsigned a = pick(8), b = pick(8), w = ch(4); s.simple = ch(2); s.ns = 1 + (!s.simple && ch(2)); u32 m = s.ns == 2 ? 1 + 2 * ch(2) : 1;
static const char* const S[] = { "a", "ab", "b+", "a+c", "b", "c+", "(a|b)c", "b+a" };
    Rule& x = rule(S[a], 10); Rule& y = rule(S[b], 10); x.bol = w & 1; y.eol = w >> 1;
    x.raw = std::string(x.bol ? "^" : "") + P[a] + "|" + P[b] + (y.eol ? "$" : ""); x.whole = y.part = true; x.states = y.states = m;
    if (ch(2)) { Rule& z = rule("[ab]", 11); z.states = m; }
    if (s.ns == 2) { Rule& z = rule("a", 12); z.states = 3; }
  }
  // --- family 7: '$' together with rules that consume line breaks (weaker reference)
  bool clash = false;
  void clashes() {
    static const char* const P[] = { "a", "a[\\r\\n]\\n?", "ab", "a\\n", "[ab]", "a[\\r\\n]", "\\n", "a\\r\\n", "a.", "a*\\n", "(a|\\n)+", "a+" }; clash = true; s.flags = *lexertl::regex_flags::dot_not_newline;
    int k = sym_param("rules", 3);
    for (int i = 0; i < k; ++i) { Rule& r = rule(P[i == 1 ? pick(12) : pick(12)], 10 + i); unsigned a = ch(2); r.eol = a; if (r.eol && r.g.nd[r.g.root].k == ALT) r.raw = "(" + r.raw + ")"; }
    s.simple = true;
  }
  // --- family 3: start states without stack
  void states() {
    static const char* const P[] = { "a", "[ab]c", "b+", ".", "ab", "a+" }; s.ns = 3;
    static const u32 masks[] = { 3, 4, 1, 7, 2, 6 }; int k = sym_param("rules", 2); bool small = sym_param("small", 0);
    for (int i = 0; i < k; ++i) { Rule& r = rule(P[small && i ? pick(2) + i : pick(6)], 11 + i, i == 1 ? 9 : -1); r.states = masks[small ? pick(i ? 3 : 2) : i == 0 ? pick(3) : pick(6)];
      unsigned a = ch(small ? 3 : 4); if (a) { r.act = 1; r.next = small ? (a + i) % 3 : a - 1; } if (i == k - 1) r.kind = ch(3); if (sym_param("bolstate", 0) && i == 0) r.bol = true; }
    { Rule& r = rule("c", 20); r.states = 7; } // every state has a rule
  }
  // --- family 4: push / pop
  void stack() {
    s.ns = 3; rec = true;
    unsigned v = pick(4);
    Rule& a = rule("\\(", 11); a.states = v & 1 ? 7 : 3; a.act = 2; a.next = 1 + ch(2); a.exit = (int)ch(4) - 1; a.kind = ch(3);
    Rule& b = rule("\\)", 12, 77); b.states = v & 2 ? 7 : 6; b.act = 3; b.kind = ch(3);
    Rule& c = rule(ch(2) ? "a+" : "a", 13); c.states = 7; unsigned d = ch(5); if (d == 1) { c.act = 1; c.next = 2; } else if (d == 2) { c.act = 2; c.next = 2; c.exit = 0; } else if (d == 3) c.kind = K_SKIP; else if (d == 4) { c.act = 3; c.states = 4; }
    Rule& e = rule("[^a()]", 14); e.states = 7;
  }
  // --- family 5: skip / no id
  void skips() {
    static const char* const P[] = { "a", "ab", "b+", "[ab]c", "a+b", "." }; int k = sym_param("rules", 3);
    for (int i = 0; i < k; ++i) { Rule& r = rule(P[pick(6)], 11 + i); r.kind = ch(3); if (r.kind == K_ID && i == 1) r.uid = 3; if (sym_param("anch", 0)) { unsigned q = ch(3); r.bol = q == 1; r.eol = q == 2; } }
  }
  // --- family 6: mixed, used for pairwise comparisons (richer, fewer)
  void mixed() {
    static const char* const P[] = { "a", "a+b", "[ab]+", "\n", "a(b|c)*", ".", "[^a\n]c?", "(ab|ba)c" };
    s.ns = 2; rec = sym_param("rec", 1);
    Rule& a = rule(P[pick(8)], 300, 4); a.states = 1 + ch(3); a.act = 1; a.next = ch(2);
    Rule& b = rule(P[pick(8)], 301); b.states = 3; b.kind = ch(3); b.bol = ch(2);
    Rule& c = rule(P[pick(4)], 302, 65000); c.states = 3; c.eol = ch(2);
    if (rec) { Rule& d = rule("\\(", 303); d.states = 3; d.act = 2; d.next = 1; d.exit = 0; Rule& e = rule("\\)", 304); e.states = 2; e.act = 3; }
  }
  // --- family 8: nearly equal end states (merging by minimise must respect every attribute)
  void merges() {
    s.ns = 2; rec = true; static const char* const P[] = { "cb", "(c|d)(b|a)", "cb+", "c(b|ab)" };
    Rule& a = rule("ab", 300, 4); Rule& b = rule(P[pick(4)], 300, 4); unsigned d = ch(12);
    unsigned e = ch(6); if (e == 1) { a.act = 1; a.next = 1; } else if (e == 2) { a.act = 2; a.next = 1; a.exit = 0; } else if (e == 3) a.kind = K_SKIP; else if (e == 4) { a.bol = true; } else if (e == 5) { a.eol = true; }
    b.act = a.act; b.next = a.next; b.exit = a.exit; b.kind = a.kind; b.bol = a.bol; b.eol = a.eol;
    switch (d) { case 0: break; case 1: b.id = 301; break; case 2: b.uid = 5; break; case 3: b.uid = -1; break; case 4: b.act = 1; b.next = 1; break; case 5: b.act = 2; b.next = 1; b.exit = 0; break; case 6: b.act = 2; b.next = 1; break;
      case 7: b.kind = K_SKIP; break; case 8: b.kind = K_NOID; break; case 9: b.bol = true; break; case 10: b.eol = true; break; case 11: b.act = 2; b.next = 0; b.exit = 1; break; }
    if ((b.bol || b.eol) && b.g.nd[b.g.root].k == ALT) b.raw = "(" + b.raw + ")";
    Rule& f = rule("(e|f)g|hg", 302); f.states = 3; if (ch(2)) f.eol = true, f.raw = "((e|f)g|hg)";
    Rule& p = rule("p", 303, 7); p.states = 2; p.act = 3; Rule& q = rule("[aeb\n]", 304); q.states = 2;
  }
  void make(int fam) { switch (fam) { case 8: merges(); break; case 1: plain(); break; case 2: anchors(); break; case 3: states(); break; case 4: stack(); break; case 5: skips(); break; case 6: mixed(); break; case 7: clashes(); break; case 10: altanch(); break; } }
};
}
