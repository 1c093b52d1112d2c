// Reference semantics of regexes over a symbolic text: for every node and start
// position a bit mask of the end positions (bit j: text[i,j) is in the language).
// Branch-free in the text, so it builds one solver expression per question.
#pragma once
#include "sym.h"
#include <string>
#include <cstring>
namespace orc {
typedef uint32_t u32; typedef uint32_t mask;
enum Kind { SET, CAT, ALT, STAR, PLUS, OPT, REP, EPS };
struct Node { Kind k; int a = -1, b = -1, n = 0, m = -1, set = -1; bool lazy = false; const char* txt = nullptr; bool paren = false; };
const int MAXN = 64, MAXL = 12;
struct Regex {
  Node nd[MAXN]; int cnt = 0, root = -1;
  int set(int s, const char* t) { Node& x = nd[cnt]; x.k = SET; x.set = s; x.txt = t; return cnt++; }
  int bin(Kind k, int a, int b) { Node& x = nd[cnt]; x.k = k; x.a = a; x.b = b; return cnt++; }
  int un(Kind k, int a, bool lazy = false) { Node& x = nd[cnt]; x.k = k; x.a = a; x.lazy = lazy; return cnt++; }
  int rep(int a, int n, int m, bool lazy = false) { Node& x = nd[cnt]; x.k = REP; x.a = a; x.n = n; x.m = m; x.lazy = lazy; return cnt++; }
  int eps() { nd[cnt].k = EPS; return cnt++; }
  static int prec(Kind k) { return k == ALT ? 0 : k == CAT ? 1 : k == SET || k == EPS ? 3 : 2; }
  void render(int i, int p, std::string& o) const {
    const Node& x = nd[i]; int q = prec(x.k); bool par = q < p || x.paren || x.k == EPS;
    // a repeat applied to a repeat is written with parentheses
    if (par) o += '(';
    switch (x.k) {
    case SET: o += x.txt; break;
    case EPS: break;
    case CAT: render(x.a, 1, o); render(x.b, 1, o); break;
    case ALT: render(x.a, 0, o); o += '|'; render(x.b, 0, o); break;
    default: {
      render(x.a, 3, o);
      if (x.k == STAR) o += '*'; else if (x.k == PLUS) o += '+'; else if (x.k == OPT) o += '?';
      else { o += '{'; o += std::to_string(x.n); if (x.m != x.n) { o += ','; if (x.m >= 0) o += std::to_string(x.m); } o += '}'; }
      if (x.lazy) o += '?'; } }
    if (par) o += ')';
  }
  std::string text() const { std::string s; render(root, 0, s); return s; }
  bool nullable(int i) const { const Node& x = nd[i]; switch (x.k) { case SET: return false; case EPS: case STAR: case OPT: return true; case CAT: return nullable(x.a) && nullable(x.b); case ALT: return nullable(x.a) || nullable(x.b); case PLUS: return nullable(x.a); default: return x.n == 0 || nullable(x.a); } }
  void mirror() { for (int i = 0; i < cnt; ++i) if (nd[i].k == CAT) { int a = nd[i].a; nd[i].a = nd[i].b; nd[i].b = a; } }
  bool nullable() const { return nullable(root); }
};
// Independent parser for a small regex syntax: literals, \n \r, '.', [sets], (), |, * + ? {n,m}, lazy suffix.
struct ClassTab {
  u32 tab[256]; u32 hi = 0; int n = 0; const char* names[32]; int len[32]; bool dot_all = false;
  ClassTab() { memset(tab, 0, sizeof tab); }
  int get(const char* t, int l) {
    for (int i = 0; i < n; ++i) if (len[i] == l && !memcmp(names[i], t, l)) return i;
    bool in[256]; bool neg = false; memset(in, 0, sizeof in); int p = 0;
    if (t[0] == '.') { for (int c = 0; c < 256; ++c) in[c] = dot_all || c != '\n'; neg = true; hi |= 1u << n; }
    else if (t[0] == '[') { p = 1; if (t[p] == '^') { neg = true; ++p; }
      while (p < l - 1) { unsigned a = ch(t, p), b = a; if (t[p] == '-' && p < l - 2) { ++p; b = ch(t, p); } for (unsigned c = a; c <= b; ++c) in[c] = true; }
      if (neg) { for (int c = 0; c < 256; ++c) in[c] = !in[c]; hi |= 1u << n; } }
    else in[ch(t, p)] = true;
    for (int c = 0; c < 256; ++c) if (in[c]) tab[c] |= 1u << n;
    names[n] = t; len[n] = l; return n++;
  }
  static unsigned hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
  static unsigned ch(const char* t, int& p) { if (t[p] == '\\') { ++p; char c = t[p++]; if (c == 'x') { unsigned v = hx(t[p]) * 16 + hx(t[p + 1]); p += 2; return v; } return c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : (unsigned char)c; } return (unsigned char)t[p++]; }
};
struct RParser {
  Regex& g; ClassTab& ct; const char* p;
  RParser(Regex& r, ClassTab& c, const char* t) : g(r), ct(c), p(t) {}
  int alt() { int a = cat(); while (*p == '|') { ++p; int b = cat(); a = g.bin(ALT, a, b); } return a; }
  int cat() { int a = -1; while (*p && *p != '|' && *p != ')') { int b = post(); a = a < 0 ? b : g.bin(CAT, a, b); } return a < 0 ? g.eps() : a; }
  int num() { int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return v; }
  int post() { int a = atom();
    for (;;) { if (*p == '*') { ++p; a = g.un(STAR, a, lazy()); } else if (*p == '+') { ++p; a = g.un(PLUS, a, lazy()); } else if (*p == '?') { ++p; a = g.un(OPT, a, lazy()); }
      else if (*p == '{') { ++p; int n = num(), m = n; if (*p == ',') { ++p; m = *p == '}' ? -1 : num(); } ++p; a = g.rep(a, n, m, lazy()); } else return a; } }
  bool lazy() { if (*p == '?') { ++p; return true; } return false; }
  int atom() { if (*p == '(') { ++p; int a = alt(); ++p; return a; }
    const char* q = p; if (*p == '[') { ++p; if (*p == '^') ++p; while (*p != ']') { if (*p == '\\') ++p; ++p; } ++p; } else if (*p == '\\') p += p[1] == 'x' ? 4 : 2; else ++p;
    int s = ct.get(q, p - q); return g.set(s, nullptr); }
};
inline void parse(Regex& g, ClassTab& ct, const char* t) { g.cnt = 0; RParser r(g, ct, t); g.root = r.alt(); }
// text + class table
struct Text {
  int L = 0; u32 cls[MAXL];
  // M[i] (0<=i<=L): end masks of node r from i
  static mask sel(mask bits, int k) { return (mask)0 - ((bits >> k) & 1u); }
  void cat(const mask* A, const mask* B, mask* R) const { for (int i = 0; i <= L; ++i) { mask r = 0; for (int k = i; k <= L; ++k) r |= sel(A[i], k) & B[k]; R[i] = r; } }
  void star(const mask* A, mask* R) const { for (int i = L; i >= 0; --i) { mask r = (mask)1 << i; for (int k = i + 1; k <= L; ++k) r |= sel(A[i], k) & R[k]; R[i] = r; } }
  void eval(const Regex& g, int i, mask* M) const {
    const Node& x = g.nd[i]; mask A[MAXL + 1], B[MAXL + 1];
    switch (x.k) {
    case SET: for (int p = 0; p <= L; ++p) M[p] = p < L ? ((cls[p] >> x.set) & 1u) << (p + 1) : 0; break;
    case EPS: for (int p = 0; p <= L; ++p) M[p] = (mask)1 << p; break;
    case CAT: eval(g, x.a, A); eval(g, x.b, B); cat(A, B, M); break;
    case ALT: eval(g, x.a, A); eval(g, x.b, B); for (int p = 0; p <= L; ++p) M[p] = A[p] | B[p]; break;
    case STAR: eval(g, x.a, A); star(A, M); break;
    case PLUS: eval(g, x.a, A); star(A, B); cat(A, B, M); break;
    case OPT: eval(g, x.a, A); for (int p = 0; p <= L; ++p) M[p] = A[p] | (mask)1 << p; break;
    case REP: {
      eval(g, x.a, A); mask C[MAXL + 1], D[MAXL + 1];
      for (int p = 0; p <= L; ++p) C[p] = (mask)1 << p;
      for (int n = 0; n < x.n; ++n) { cat(C, A, D); memcpy(C, D, sizeof C); }
      if (x.m < 0) { star(A, B); cat(C, B, M); break; }
      for (int p = 0; p <= L; ++p) M[p] = C[p];
      for (int n = x.n; n < x.m; ++n) { cat(C, A, D); memcpy(C, D, sizeof C); for (int p = 0; p <= L; ++p) M[p] |= C[p]; }
      break; }
    }
  }
};
// position of the highest / lowest set bit (branch-free); -1 / 31 when empty
inline int high(mask m) { int r = -1; for (int i = 0; i <= MAXL; ++i) r = ((m >> i) & 1u) ? i : r; return r; }
inline int low(mask m) { int r = 31; for (int i = MAXL; i >= 0; --i) r = ((m >> i) & 1u) ? i : r; return r; }
}
