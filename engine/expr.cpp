#include "expr.h"
Arena g_arena;
void (*g_onBlock)(size_t) = nullptr; std::vector<const Expr*> g_exprs; uint32_t g_evgen = 1;

struct Key { uint64_t h; Kind k; uint8_t w; uint16_t var; V a, b, c; const uint8_t* tab; unsigned tabn; };
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static uint64_t hv(uint64_t h, V v) { return mix(mix(h, v.c), (uint64_t)v.e); }
struct KeyHash { size_t operator()(const Key& k) const { return k.h; } };
struct KeyEq { bool operator()(const Key& x, const Key& y) const {
  return x.h == y.h && x.k == y.k && x.w == y.w && x.var == y.var && x.a == y.a && x.b == y.b && x.c == y.c && x.tabn == y.tabn && (!x.tabn || !memcmp(x.tab, y.tab, x.tabn)); } };
static std::unordered_map<Key, const Expr*, KeyHash, KeyEq> g_cons;

static const Expr* consE(Key k) {
  uint64_t h = mix(k.k * 131 + k.w, k.var); h = hv(hv(hv(h, k.a), k.b), k.c);
  for (unsigned i = 0; i + 8 <= k.tabn; i += 8) { uint64_t t; memcpy(&t, k.tab + i, 8); h = mix(h, t); }
  k.h = h;
  auto it = g_cons.find(k); if (it != g_cons.end()) return it->second;
  Expr* e = new (g_arena.get(sizeof(Expr))) Expr();
  e->k = k.k; e->w = k.w; e->var = k.var; e->a = k.a; e->b = k.b; e->c = k.c; e->id = g_exprs.size();
  if (k.tabn) { uint8_t* t = (uint8_t*)g_arena.get(k.tabn); memcpy(t, k.tab, k.tabn); e->tab = t; k.tab = t; e->vars.add(k.var);
    uint64_t tmp[256]; for (int i = 0; i < 256; ++i) tmp[i] = lutGet(e, i); std::sort(tmp, tmp + 256); e->ndist = std::unique(tmp, tmp + 256) - tmp; }
  for (V v : {k.a, k.b, k.c}) if (v.e) e->vars = e->vars | v.e->vars;
  g_exprs.push_back(e); g_cons.emplace(k, e); return e;
}
static V node(Kind k, unsigned w, V a, V b = C(0), V c = C(0)) {
  Key key{}; key.k = k; key.w = w; key.a = a; key.b = b; key.c = c; return V{0, consE(key)}; }

V mkLut(unsigned w, unsigned var, const uint64_t* t) {
  bool same = true; for (int i = 1; i < 256; ++i) if (t[i] != t[0]) { same = false; break; }
  if (same) return C(t[0]);
  uint8_t buf[2048]; unsigned n;
  switch (lutElem(w)) {
  case 0: memset(buf, 0, 32); for (int i = 0; i < 256; ++i) if (t[i] & 1) buf[i >> 3] |= 1 << (i & 7); n = 32; break;
  case 1: for (int i = 0; i < 256; ++i) buf[i] = t[i]; n = 256; break;
  case 2: for (int i = 0; i < 256; ++i) ((uint16_t*)buf)[i] = t[i]; n = 512; break;
  case 4: for (int i = 0; i < 256; ++i) ((uint32_t*)buf)[i] = t[i]; n = 1024; break;
  default: memcpy(buf, t, 2048); n = 2048; }
  Key key{}; key.k = K_LUT; key.w = w; key.var = var; key.tab = buf; key.tabn = n; return V{0, consE(key)};
}
V mkVar(unsigned var) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = i; return mkLut(8, var, t); }
static bool isLut(V v) { return v.e && v.e->k == K_LUT; }
static bool isIte(V v) { return v.e && v.e->k == K_ITE; }

struct CK { uint64_t tag; V a, b, c; bool operator==(const CK& o) const { return tag == o.tag && a == o.a && b == o.b && c == o.c; } };
struct CKH { size_t operator()(const CK& k) const { return hv(hv(hv(k.tag * 0x9e3779b97f4a7c15ull, k.a), k.b), k.c); } };
static std::unordered_map<CK, V, CKH> g_cache;
void (*g_onTick)() = nullptr; uint32_t g_ticks = 0;
#define CACHED(tag_, a_, b_, c_, body) do { tick(); CK _k{tag_, a_, b_, c_}; auto _it = g_cache.find(_k); if (_it != g_cache.end()) return _it->second; V _r = (body); g_cache.emplace(_k, _r); return _r; } while (0)

static bool isNotOf(V a, V b) { // a == !b for 1-bit?
  if (!a.e || !b.e) return false;
  if (a.e->k == K_XOR && a.e->b == C(1) && a.e->a == b) return true;
  if (b.e->k == K_XOR && b.e->b == C(1) && b.e->a == a) return true;
  if (isLut(a) && isLut(b) && a.e->var == b.e->var) return lutBits(a.e) == ~lutBits(b.e);
  return false;
}

static V bin0(Kind k, unsigned w, V a, V b);
V mkBin(Kind k, unsigned w, V a, V b) {
  if (!a.e && !b.e) return C(evalBin(k, w, a.c, b.c));
  if (commut(k)) { if (!a.e || (b.e && b.e->id < a.e->id)) std::swap(a, b); }
  uint64_t m = maskw(w);
  if (!b.e) { // identities
    uint64_t c = b.c;
    switch (k) {
    case K_ADD: case K_SUB: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR: if (!c) return a; break;
    case K_MUL: if (!c) return C(0); if (c == 1) return a; break;
    case K_AND: if (!c) return C(0); if (c == m) return a; break;
    case K_UDIV: case K_SDIV: if (c == 1) return a; break;
    case K_ULT: if (!c) return C(0); break;
    case K_ULE: if (c == m) return C(1); break;
    case K_EQ: if (w == 1) return c ? a : mkNot(a); break;
    default: break;
    }
    if (k == K_OR && c == m) return C(m);
    if ((k == K_SHL || k == K_LSHR) && c >= w) return C(0);
    if (k == K_SUB) return mkBin(K_ADD, w, a, C((0 - c) & m));
    if (k == K_SHL) return mkBin(K_MUL, w, a, C((1ull << c) & m));
  }
  if (!a.e) { if (k == K_ULT && a.c == m) return C(0); if (k == K_ULE && a.c == 0) return C(1);
    if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && a.c == 0) return C(0); }
  if (a.e && a.e == b.e) switch (k) {
    case K_SUB: case K_XOR: return C(0); case K_AND: case K_OR: return a;
    case K_EQ: case K_ULE: case K_SLE: return C(1); case K_ULT: case K_SLT: return C(0); default: break; }
  if (w == 1 && (k == K_AND || k == K_OR) && isNotOf(a, b)) return C(k == K_OR);
  CACHED(((uint64_t)k << 16) | w, a, b, C(0), bin0(k, w, a, b));
}
static V bin0(Kind k, unsigned w, V a, V b) {
  unsigned rw = isCmp(k) ? 1 : w;
  // single-byte functions stay tables
  if ((!a.e || isLut(a)) && (!b.e || isLut(b)) && (!a.e || !b.e || a.e->var == b.e->var)) {
    uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = evalBin(k, w, a.e ? lutGet(a.e, i) : a.c, b.e ? lutGet(b.e, i) : b.c);
    return mkLut(rw, a.e ? a.e->var : b.e->var, t);
  }
  // push into ite with the other operand constant, or same condition
  if (!(w == 1 && !isCmp(k))) {
    if (isIte(a) && !b.e) return mkIte(rw, a.e->a, mkBin(k, w, a.e->b, b), mkBin(k, w, a.e->c, b));
    if (isIte(b) && !a.e) return mkIte(rw, b.e->a, mkBin(k, w, a, b.e->b), mkBin(k, w, a, b.e->c));
    if (isIte(a) && isIte(b) && a.e->a == b.e->a) return mkIte(rw, a.e->a, mkBin(k, w, a.e->b, b.e->b), mkBin(k, w, a.e->c, b.e->c));
  }
  // constants: reassociate
  if (!b.e && a.e) {
    if (k == K_ADD && a.e->k == K_ADD && !a.e->b.e) return mkBin(K_ADD, w, a.e->a, C((a.e->b.c + b.c) & maskw(w)));
    if (k == K_MUL && a.e->k == K_MUL && !a.e->b.e) return mkBin(K_MUL, w, a.e->a, C((a.e->b.c * b.c) & maskw(w)));
    if ((k == K_AND || k == K_OR || k == K_XOR) && a.e->k == k && !a.e->b.e) return mkBin(k, w, a.e->a, C(evalBin(k, w, a.e->b.c, b.c)));
    if (k == K_EQ) {
      if (a.e->k == K_ADD && !a.e->b.e) return mkEq(w, a.e->a, C((b.c - a.e->b.c) & maskw(w)));
      if (a.e->k == K_XOR && !a.e->b.e) return mkEq(w, a.e->a, C(b.c ^ a.e->b.c));
      if (a.e->k == K_ZEXT) { unsigned iw = a.e->a.e->w; return b.c > maskw(iw) ? C(0) : mkEq(iw, a.e->a, C(b.c)); }
      if (a.e->k == K_SEXT) { unsigned iw = a.e->a.e->w; uint64_t lo = b.c & maskw(iw); return ((uint64_t)sx(lo, iw) & maskw(w)) != b.c ? C(0) : mkEq(iw, a.e->a, C(lo)); }
      if (a.e->k == K_CONCAT) { unsigned hw = a.e->c.c, lw = w - hw;
        return mkAnd(mkEq(hw, a.e->a, C(b.c >> lw)), mkEq(lw, a.e->b, C(b.c & maskw(lw)))); }
    }
    if (k == K_ULT && a.e->k == K_ZEXT) { unsigned iw = a.e->a.e->w; return b.c > maskw(iw) ? C(1) : mkBin(K_ULT, iw, a.e->a, b); }
    if (k == K_ULE && a.e->k == K_ZEXT) { unsigned iw = a.e->a.e->w; return b.c >= maskw(iw) ? C(1) : mkBin(K_ULE, iw, a.e->a, b); }
  }
  if (!a.e && b.e) {
    if (k == K_ULT && b.e->k == K_ZEXT) { unsigned iw = b.e->a.e->w; return a.c >= maskw(iw) ? C(0) : mkBin(K_ULT, iw, a, b.e->a); }
    if (k == K_ULE && b.e->k == K_ZEXT) { unsigned iw = b.e->a.e->w; return a.c > maskw(iw) ? C(0) : mkBin(K_ULE, iw, a, b.e->a); }
  }
  if (a.e && b.e && a.e->k == K_ZEXT && b.e->k == K_ZEXT && a.e->a.e->w == b.e->a.e->w && (k == K_EQ || k == K_ULT || k == K_ULE))
    return mkBin(k, a.e->a.e->w, a.e->a, b.e->a);
  if (k == K_SUB && !b.e) return mkBin(K_ADD, w, a, C((0 - b.c) & maskw(w)));
  // (x + c1) + y  ->  (x + y) + c1 keeps constants outermost
  if (k == K_ADD && a.e && b.e) {
    if (a.e->k == K_ADD && !a.e->b.e) return mkBin(K_ADD, w, mkBin(K_ADD, w, a.e->a, b), a.e->b);
    if (b.e->k == K_ADD && !b.e->b.e) return mkBin(K_ADD, w, mkBin(K_ADD, w, a, b.e->a), b.e->b);
  }
  if (k == K_SUB && a.e && b.e && a.e->k == K_ADD && !a.e->b.e && b.e == a.e->a.e) return a.e->b;
  if (k == K_SUB && a.e && b.e && a.e->k == K_ADD) { if (a.e->a == b) return a.e->b; if (a.e->b == b) return a.e->a; }
  return node(k, rw, a, b);
}
V mkNot(V a) {
  if (!a.e) return C(!a.c);
  if (a.e->k == K_XOR && a.e->b == C(1)) return a.e->a;
  if (isLut(a)) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = !lutGet(a.e, i); return mkLut(1, a.e->var, t); }
  return node(K_XOR, 1, a, C(1));
}
V mkAnd(V a, V b) { return mkBin(K_AND, 1, a, b); }
V mkOr(V a, V b) { return mkBin(K_OR, 1, a, b); }
static V ite0(unsigned w, V c, V a, V b) {
  if (isLut(c) && (!a.e || (isLut(a) && a.e->var == c.e->var)) && (!b.e || (isLut(b) && b.e->var == c.e->var))) {
    uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = lutGet(c.e, i) ? (a.e ? lutGet(a.e, i) : a.c) : (b.e ? lutGet(b.e, i) : b.c);
    return mkLut(w, c.e->var, t);
  }
  if (isIte(a) && a.e->a == c) return mkIte(w, c, a.e->b, b);
  if (isIte(b) && b.e->a == c) return mkIte(w, c, a, b.e->c);
  if (c.e->k == K_XOR && c.e->b == C(1)) return mkIte(w, c.e->a, b, a);
  return node(K_ITE, w, c, a, b);
}
V mkIte(unsigned w, V c, V a, V b) {
  if (!c.e) return c.c ? a : b;
  if (a == b) return a;
  if (w == 1) {
    if (!a.e && !b.e) return a.c ? c : mkNot(c);
    if (!a.e) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (!b.e) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  CACHED(((uint64_t)K_ITE << 16) | w, c, a, b, ite0(w, c, a, b));
}
static V ext0(V a, unsigned aw, unsigned lo, unsigned w) {
  const Expr* e = a.e;
  if (e->k == K_LUT) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = (lutGet(e, i) >> lo) & maskw(w); return mkLut(w, e->var, t); }
  if (e->k == K_ITE) return mkIte(w, e->a, mkExtract(e->b, aw, lo, w), mkExtract(e->c, aw, lo, w));
  if (e->k == K_EXTRACT) return mkExtract(e->a, e->a.e->w, lo + e->b.c, w);
  if (e->k == K_ZEXT) { unsigned iw = e->a.e->w; if (lo >= iw) return C(0); if (lo + w <= iw) return mkExtract(e->a, iw, lo, w); return mkZExt(mkExtract(e->a, iw, lo, iw - lo), iw - lo, w); }
  if (e->k == K_SEXT) { unsigned iw = e->a.e->w; if (lo + w <= iw) return mkExtract(e->a, iw, lo, w); }
  if (e->k == K_CONCAT) { unsigned hw = e->c.c, lw = aw - hw; if (lo >= lw) return mkExtract(e->a, hw, lo - lw, w); if (lo + w <= lw) return mkExtract(e->b, lw, lo, w);
    return mkConcat(mkExtract(e->a, hw, 0, lo + w - lw), lo + w - lw, mkExtract(e->b, lw, lo, lw - lo), lw - lo); }
  if (e->k == K_AND || e->k == K_OR || e->k == K_XOR) return mkBin(e->k, w, mkExtract(e->a, aw, lo, w), mkExtract(e->b, aw, lo, w));
  if (lo == 0 && (e->k == K_ADD || e->k == K_SUB || e->k == K_MUL)) return mkBin(e->k, w, mkExtract(e->a, aw, 0, w), mkExtract(e->b, aw, 0, w));
  if (e->k == K_LSHR && !e->b.e && lo + e->b.c + w <= aw) return mkExtract(e->a, aw, lo + e->b.c, w);
  return node(K_EXTRACT, w, a, C(lo));
}
V mkExtract(V a, unsigned aw, unsigned lo, unsigned w) {
  if (!a.e) return C((a.c >> lo) & maskw(w));
  if (lo == 0 && w == aw) return a;
  CACHED(((uint64_t)K_EXTRACT << 16) | (lo << 8) | w, a, C(aw), C(0), ext0(a, aw, lo, w));
}
static V zext0(V a, unsigned from, unsigned to) {
  const Expr* e = a.e;
  if (e->k == K_LUT) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = lutGet(e, i); return mkLut(to, e->var, t); }
  if (e->k == K_ITE) return mkIte(to, e->a, mkZExt(e->b, from, to), mkZExt(e->c, from, to));
  if (from == 1) return mkIte(to, a, C(1), C(0));
  if (e->k == K_ZEXT) return mkZExt(e->a, e->a.e->w, to);
  return node(K_ZEXT, to, a);
}
V mkZExt(V a, unsigned from, unsigned to) { if (!a.e || from == to) return a; CACHED(((uint64_t)K_ZEXT << 16) | to, a, C(from), C(0), zext0(a, from, to)); }
static V sext0(V a, unsigned from, unsigned to) {
  const Expr* e = a.e;
  if (e->k == K_LUT) { uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = (uint64_t)sx(lutGet(e, i), from) & maskw(to); return mkLut(to, e->var, t); }
  if (e->k == K_ITE) return mkIte(to, e->a, mkSExt(e->b, from, to), mkSExt(e->c, from, to));
  if (from == 1) return mkIte(to, a, C(maskw(to)), C(0));
  if (e->k == K_ZEXT) return mkZExt(e->a, e->a.e->w, to);
  return node(K_SEXT, to, a);
}
V mkSExt(V a, unsigned from, unsigned to) { if (!a.e) return C((uint64_t)sx(a.c, from) & maskw(to)); if (from == to) return a; CACHED(((uint64_t)K_SEXT << 16) | to, a, C(from), C(0), sext0(a, from, to)); }
static V concat0(V hi, unsigned hw, V lo, unsigned lw) {
  unsigned w = hw + lw;
  if ((!hi.e || isLut(hi)) && (!lo.e || isLut(lo)) && (!hi.e || !lo.e || hi.e->var == lo.e->var)) {
    uint64_t t[256]; for (int i = 0; i < 256; ++i) t[i] = ((hi.e ? lutGet(hi.e, i) : hi.c) << lw) | (lo.e ? lutGet(lo.e, i) : lo.c);
    return mkLut(w, hi.e ? hi.e->var : lo.e->var, t); }
  if (!hi.e && !hi.c) return mkZExt(lo, lw, w);
  if (isIte(hi) && isIte(lo) && hi.e->a == lo.e->a) return mkIte(w, hi.e->a, mkConcat(hi.e->b, hw, lo.e->b, lw), mkConcat(hi.e->c, hw, lo.e->c, lw));
  if (isIte(hi) && !lo.e) return mkIte(w, hi.e->a, mkConcat(hi.e->b, hw, lo, lw), mkConcat(hi.e->c, hw, lo, lw));
  if (isIte(lo) && !hi.e) return mkIte(w, lo.e->a, mkConcat(hi, hw, lo.e->b, lw), mkConcat(hi, hw, lo.e->c, lw));
  if (hi.e && lo.e && hi.e->k == K_EXTRACT && lo.e->k == K_EXTRACT && hi.e->a == lo.e->a && hi.e->b.c == lo.e->b.c + lw)
    return mkExtract(hi.e->a, hi.e->a.e->w, lo.e->b.c, w);
  if (hi.e && lo.e && hi.e->k == K_EXTRACT && hi.e->b.c == lw && hi.e->a == lo) return mkExtract(lo, lo.e->w, 0, w);
  // extract(x, lw..) ++ trunc-simplified lo: recompute lo from x
  if (hi.e && hi.e->k == K_EXTRACT && hi.e->b.c == lw && hi.e->a.e->w >= w && mkExtract(hi.e->a, hi.e->a.e->w, 0, lw) == lo) return mkExtract(hi.e->a, hi.e->a.e->w, 0, w);
  return node(K_CONCAT, w, hi, lo, C(hw));
}
V mkConcat(V hi, unsigned hw, V lo, unsigned lw) {
  if (!hi.e && !lo.e) return C((hi.c << lw) | lo.c);
  CACHED(((uint64_t)K_CONCAT << 16) | (hw << 8) | lw, hi, lo, C(0), concat0(hi, hw, lo, lw));
}

uint64_t evalE(const Expr* e, const Model& m) {
  if (e->gen == g_evgen) return e->ev;
  auto ev = [&](V v) { return v.e ? evalE(v.e, m) : v.c; };
  uint64_t r;
  switch (e->k) {
  case K_LUT: r = lutGet(e, m.b[e->var]); break;
  case K_ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
  case K_CONCAT: { unsigned lw = e->w - e->c.c; r = (ev(e->a) << lw) | ev(e->b); break; }
  case K_EXTRACT: r = (ev(e->a) >> e->b.c) & maskw(e->w); break;
  case K_ZEXT: r = ev(e->a); break;
  case K_SEXT: r = (uint64_t)sx(ev(e->a), e->a.e->w) & maskw(e->w); break;
  default: { unsigned w = e->a.e ? e->a.e->w : e->b.e->w; r = evalBin(e->k, w, ev(e->a), ev(e->b)); }
  }
  e->gen = g_evgen; e->ev = r; return r;
}
V substE(V v, const Expr* from, V to, std::unordered_map<const Expr*, V>& memo) {
  if (!v.e) return v;
  if (v.e == from) return to; if (v.e->k == K_LUT) return v;
  auto it = memo.find(v.e); if (it != memo.end()) return it->second;
  const Expr* e = v.e; V r; auto S = [&](V x) { return substE(x, from, to, memo); };
  switch (e->k) {
  case K_ITE: r = mkIte(e->w, S(e->a), S(e->b), S(e->c)); break;
  case K_CONCAT: { unsigned hw = e->c.c; r = mkConcat(S(e->a), hw, S(e->b), e->w - hw); break; }
  case K_EXTRACT: r = mkExtract(S(e->a), e->a.e->w, e->b.c, e->w); break;
  case K_ZEXT: r = mkZExt(S(e->a), e->a.e->w, e->w); break;
  case K_SEXT: r = mkSExt(S(e->a), e->a.e->w, e->w); break;
  default: { unsigned w = e->a.e ? e->a.e->w : e->b.e->w; r = mkBin(e->k, w, S(e->a), S(e->b)); }
  }
  memo[v.e] = r; return r;
}

static uint32_t g_sgen = 0;
static V domSimp0(V v, const ByteSet* dom) {
  if (!v.e) return v;
  const Expr* e = v.e; if (e->sgen == g_sgen) return e->sv; tick();
  V r; auto S = [&](V x) { return domSimp0(x, dom); };
  switch (e->k) {
  case K_LUT: { const ByteSet& d = dom[e->var]; int f = d.first(); if (f < 0 || d == ByteSet::full()) { r = v; break; }
    if (e->w == 1) { ByteSet t = lutBits(e) & d; if (t.empty()) { r = C(0); break; } if (t == d) { r = C(1); break; } }
    uint64_t t[256]; uint64_t fv = lutGet(e, f); bool diff = false, chg = false;
    for (int i = 0; i < 256; ++i) { uint64_t x = lutGet(e, i); if (d.has(i)) { if (x != fv) diff = true; t[i] = x; } else { t[i] = fv; if (x != fv) chg = true; } }
    r = !diff ? C(fv) : chg ? mkLut(e->w, e->var, t) : v; break; }
  case K_ITE: { V c = S(e->a); if (!c.e) r = S(c.c ? e->b : e->c); else r = mkIte(e->w, c, S(e->b), S(e->c)); break; }
  case K_CONCAT: { unsigned hw = e->c.c; r = mkConcat(S(e->a), hw, S(e->b), e->w - hw); break; }
  case K_EXTRACT: r = mkExtract(S(e->a), e->a.e->w, e->b.c, e->w); break;
  case K_ZEXT: r = mkZExt(S(e->a), e->a.e->w, e->w); break;
  case K_SEXT: r = mkSExt(S(e->a), e->a.e->w, e->w); break;
  default: { unsigned w = e->a.e ? e->a.e->w : e->b.e->w; V a = S(e->a);
    if (!a.e && e->w == 1 && ((e->k == K_AND && !a.c) || (e->k == K_OR && a.c))) { r = a; break; }
    r = mkBin(e->k, w, a, S(e->b)); }
  }
  e->sgen = g_sgen; e->sv = r; return r;
}
V domSimp(V v, const ByteSet* dom) { if (!v.e) return v; ++g_sgen; return domSimp0(v, dom); }
