// Membership of a symbolic wide character in a set of ranges, decided byte by byte (planes, pages, bytes).
// Call it after the lexer has run: it splits the path only where the lexer has not.
#pragma once
#include "sym.h"
#include <cstring>
struct Pages {
  typedef uint32_t u32; uint16_t pl[256]; // plane -> kind of plane
  uint16_t kind[20][256]; int nk = 0;      // kind of plane, page -> kind of page
  uint8_t bits[1024][256]; int np = 0;     // kind of page, byte -> member
  int page(const uint8_t* b) { for (int i = 0; i < np; ++i) if (!memcmp(bits[i], b, 256)) return i; if (np == 1024) sym_fatal("pages"); memcpy(bits[np], b, 256); return np++; }
  // ranges sorted and disjoint
  void build(const u32 (*r)[2], int n, u32 mx) {
    uint8_t b[256]; memset(b, 0, 256); np = nk = 0; memset(pl, 0, sizeof pl); page(b); memset(b, 1, 256); page(b); int i = 0;
    for (u32 p = 0; p <= mx >> 16; ++p) { uint16_t k[256]; memset(k, 0, sizeof k);
      while (i < n && r[i][1] < p << 16) ++i;
      for (int j = i; j < n && r[j][0] <= (p << 16 | 0xffff); ++j) { u32 lo = r[j][0] < p << 16 ? p << 16 : r[j][0], hi = r[j][1] > (p << 16 | 0xffff) ? p << 16 | 0xffff : r[j][1];
        for (u32 q = lo >> 8 & 255; q <= (hi >> 8 & 255); ++q) { u32 s = p << 16 | q << 8; if (lo <= s && hi >= (s | 255)) { k[q] = 1; continue; }
          u32 x = lo > s ? lo & 255 : 0, y = hi < (s | 255) ? hi & 255 : 255; memcpy(b, bits[k[q]], 256); memset(b + x, 1, y - x + 1); k[q] = page(b); } }
      int t = 0; while (t < nk && memcmp(kind[t], k, sizeof k)) ++t; if (t == nk) { if (nk == 20) sym_fatal("kinds"); memcpy(kind[nk++], k, sizeof k); } pl[p] = t; } }
  template<class C> u32 has(const C& c) const { const uint8_t* b = (const uint8_t*)&c; unsigned k = sizeof(C) == 4 ? sym_conc(pl[b[2]]) : pl[0]; unsigned p = sym_conc(kind[k][b[1]]); return bits[p][b[0]]; }
};
