// Bit-vector expression DAG over symbolic bytes (hash-consed, simplifying).
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <unordered_map>
#include <array>
#include <string>
#include <algorithm>

enum Kind : uint8_t { K_LUT, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT };

static const int MAXV = 256;
struct VarSet { uint64_t m[4] = {0,0,0,0};
  void add(unsigned v) { m[v >> 6] |= 1ull << (v & 63); }
  bool has(unsigned v) const { return m[v >> 6] >> (v & 63) & 1; }
  VarSet operator|(const VarSet& o) const { VarSet r; for (int i = 0; i < 4; ++i) r.m[i] = m[i] | o.m[i]; return r; }
};
struct ByteSet { uint64_t m[4];
  static ByteSet full() { ByteSet b; for (auto& x : b.m) x = ~0ull; return b; }
  static ByteSet none() { ByteSet b; for (auto& x : b.m) x = 0; return b; }
  bool has(unsigned v) const { return m[v >> 6] >> (v & 63) & 1; }
  void add(unsigned v) { m[v >> 6] |= 1ull << (v & 63); }
  ByteSet operator&(const ByteSet& o) const { ByteSet r; for (int i = 0; i < 4; ++i) r.m[i] = m[i] & o.m[i]; return r; }
  ByteSet operator~() const { ByteSet r; for (int i = 0; i < 4; ++i) r.m[i] = ~m[i]; return r; }
  bool empty() const { return !(m[0] | m[1] | m[2] | m[3]); }
  bool operator==(const ByteSet& o) const { return !memcmp(m, o.m, sizeof m); }
  int first() const { for (int i = 0; i < 4; ++i) if (m[i]) return i * 64 + __builtin_ctzll(m[i]); return -1; }
  int count() const { int n = 0; for (auto x : m) n += __builtin_popcountll(x); return n; }
};

struct Expr;
struct V { uint64_t c; const Expr* e; bool sym() const { return e != nullptr; }
  bool operator==(const V& o) const { return c == o.c && e == o.e; } };
inline V C(uint64_t c) { return V{c, nullptr}; }

struct Expr {
  Kind k; uint8_t w; uint16_t var; uint32_t id;
  V a, b, c;               // children (constants allowed); EXTRACT: b.c = low bit
  const uint8_t* tab = nullptr; // LUT: packed table
  uint32_t ndist = 0;      // LUT: number of distinct values
  VarSet vars;
  mutable uint32_t gen = 0; mutable uint64_t ev = 0;
  mutable uint32_t sgen = 0, vgen = 0; mutable V sv{0, nullptr};
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

inline uint64_t evalBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (k) {
  case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? (a / b) & m : m; case K_UREM: return b ? a % b : a;
  case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(-(uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
  case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
  case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
inline bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
inline bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

// ---- LUT tables: packed by width
inline unsigned lutElem(unsigned w) { return w == 1 ? 0 : w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8; }
inline uint64_t lutGet(const Expr* e, unsigned i) {
  switch (lutElem(e->w)) {
  case 0: return e->tab[i >> 3] >> (i & 7) & 1; case 1: return e->tab[i];
  case 2: return ((const uint16_t*)e->tab)[i]; case 4: return ((const uint32_t*)e->tab)[i];
  default: return ((const uint64_t*)e->tab)[i]; }
}
inline ByteSet lutBits(const Expr* e) { ByteSet b; memcpy(b.m, e->tab, 32); return b; }

extern void (*g_onBlock)(size_t total); // may throw: memory/time limits
struct Arena {
  std::vector<char*> blocks; size_t used = 0, cap = 0; size_t total = 0;
  void* get(size_t n) { n = (n + 15) & ~size_t(15); if (used + n > cap) { cap = std::max<size_t>(n, 4 << 20); blocks.push_back((char*)malloc(cap)); used = 0; total += cap; if (g_onBlock) g_onBlock(total); }
    void* p = blocks.back() + used; used += n; return p; }
};
extern Arena g_arena;
extern void (*g_onTick)(); extern uint32_t g_ticks;   // called now and then while rewriting; may throw
inline void tick() { if ((++g_ticks & 0x3fff) == 0 && g_onTick) g_onTick(); }
extern std::vector<const Expr*> g_exprs;

V mkLut(unsigned w, unsigned var, const uint64_t* t);
V mkVar(unsigned var);
V mkBin(Kind k, unsigned w, V a, V b);
V mkIte(unsigned w, V c, V a, V b);
V mkExtract(V a, unsigned aw, unsigned lo, unsigned w);
V mkZExt(V a, unsigned from, unsigned to);
V mkSExt(V a, unsigned from, unsigned to);
V mkConcat(V hi, unsigned hw, V lo, unsigned lw);
V mkNot(V a);
V mkAnd(V a, V b);
V mkOr(V a, V b);
inline V mkEq(unsigned w, V a, V b) { return mkBin(K_EQ, w, a, b); }

struct Model { uint8_t b[MAXV]; };
extern uint32_t g_evgen;
uint64_t evalE(const Expr* e, const Model& m); // uses current generation
inline uint64_t evalV(V v, const Model& m) { if (!v.e) return v.c; ++g_evgen; return evalE(v.e, m); }
V domSimp(V v, const ByteSet* dom); // rewrite under per-variable domains
V substE(V v, const Expr* from, V to, std::unordered_map<const Expr*, V>& memo);
