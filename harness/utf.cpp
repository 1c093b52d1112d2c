// C19 / C20: UTF-8 and UTF-16 iterators against the encodings' definitions.
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <stdexcept>
#include <lexertl/utf_iterators.hpp>
using namespace lexertl;
typedef uint32_t u32;
static char cat(bool b) { return b ? 'y' : 'n'; }
// one UTF-8 sequence at p (n bytes left): length, or 0 when malformed/truncated; branches on the bytes
static int dec8(const unsigned char* p, int n, u32& c) {
  unsigned b = p[0]; int k = b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0; if (!k) return 0;
  c = k == 1 ? b : k == 2 ? b - 0xc0 : k == 3 ? b - 0xe0 : b - 0xf0; if (k > n) { for (int i = 1; i < n; ++i) if (p[i] < 0x80 || p[i] > 0xbf) return 0; return -1; }
  for (int i = 1; i < k; ++i) { if (p[i] < 0x80 || p[i] > 0xbf) return 0; c = c * 64 + (p[i] - 0x80); } return k; }
static int enc8(u32 c, unsigned char* o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 + c / 64; o[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { o[0] = 0xe0 + c / 4096; o[1] = 0x80 + c / 64 % 64; o[2] = 0x80 + c % 64; return 3; } o[0] = 0xf0 + c / 262144; o[1] = 0x80 + c / 4096 % 64; o[2] = 0x80 + c / 64 % 64; o[3] = 0x80 + c % 64; return 4; }
static int enc16(u32 c, u32* o) { if (c < 0x10000) { o[0] = c; return 1; } c -= 0x10000; o[0] = 0xd800 + c / 1024; o[1] = 0xdc00 + c % 1024; return 2; }
static u32 symcp() { // any Unicode scalar value
  uint8_t b0 = sym_byte(), b1 = sym_byte(), b2 = sym_byte(); sym_assume(b2 <= 0x10); if (b2 == 0) sym_assume(b1 < 0xd8 || b1 > 0xdf); return b0 | b1 << 8 | (u32)b2 << 16; }
template<class It, class Base> void walk8(const Base& b, const unsigned char* raw, int n) {
  // expected code points
  u32 cp[8]; int at[9], m = 0, pos = 0; int bad = 0; while (pos < n) { u32 c; int k = dec8(raw + pos, n - pos, c); if (k <= 0) { bad = k == 0 ? 1 : 2; break; } cp[m] = c; at[m++] = pos; pos += k; } at[m] = pos;
  const char* msg = nullptr; int seen = 0; Base e = b + n;
  int how = sym_choice(3);
  try {
    It i(b, e), end(e, e);
    for (;;) { bool z = i == end, y = i != end; CHECK(z == (seen == m && !bad)); CHECK(y == !z); if (z) break; sym_assert(seen < m, "a code point that is not in the text"); sym_assert((u32)*i == cp[seen], "code point"); sym_assert(i.get() - b == at[seen], "position"); sym_observe(1, (u32)*i);
      if (how == 0) { ++seen; It& r = ++i; CHECK(&r == &i); }
      else if (how == 1) { It o(i); ++seen; It p = i++; sym_assert(p == o && *p == *o && p.get() == o.get(), "value of post-increment"); CHECK(!(p == i)); CHECK(i > p); CHECK(!(p > i)); ++p; sym_assert(p == i && (p == end || *p == *i), "a copy advances on its own"); }
      else { ++seen; It p = i + 1; CHECK(i.get() - b == at[seen - 1]); i = p; }
      CHECK(i == i); }
    if (how == 2) { for (int d = 0; d <= m; ++d) { It j = end - d; sym_assert(j.get() - b == at[m - d], "operator -"); if (d) { sym_assert((u32)*j == cp[m - d], "operator - value"); ++j; sym_assert(j.get() - b == at[m - d + 1], "operator - then ++"); } } It k = It(b, e) + m; CHECK(k == end); sym_cover("back"); }
  } catch (const std::range_error& x) { msg = x.what(); }
  CHECK((msg != nullptr) == (bad != 0));
  if (bad) { sym_assert(seen == m, "error exactly at the malformed sequence"); if (bad == 1) sym_cover("malformed"); else sym_cover("truncated"); } else if (m > 1) sym_cover("several"); else sym_cover("valid");
}
template<class C, class It> void walk16(const C* t, int n) {
  u32 cp[8]; int at[9], m = 0, pos = 0; bool bad = false; while (pos < n) { u32 c = (u32)t[pos]; int k = 1; if (c >= 0xd800 && c <= 0xdfff) { if (c > 0xdbff || pos + 1 == n || (u32)t[pos + 1] < 0xdc00 || (u32)t[pos + 1] > 0xdfff) { bad = true; break; } c = 0x10000 + (c - 0xd800) * 1024 + ((u32)t[pos + 1] - 0xdc00); k = 2; } cp[m] = c; at[m++] = pos; pos += k; }
  bool threw = false; int seen = 0, how = sym_choice(2);
  try { It i(t, t + n), end(t + n, t + n);
    while (i != end) { CHECK(!(i == end)); sym_assert(seen < m, "a code point that is not in the text"); sym_assert((u32)*i == cp[seen], "utf-16 code point"); sym_observe(2, (u32)*i); ++seen; if (how) { It o = i++; sym_assert((u32)*o == cp[seen - 1], "post-increment"); ++o; CHECK(o == i); } else ++i; }
    CHECK(i == end); for (int d = 0; d <= m; ++d) { It j = end - d; if (d) sym_assert((u32)*j == cp[m - d], "operator -"); CHECK(j + d == end); } }
  catch (const std::range_error&) { threw = true; }
  CHECK(threw == bad); sym_assert(seen == m, "every code point before the error"); if (bad) sym_cover("malformed 16"); else sym_cover("valid 16"); }
// an output iterator yields exactly the expected units, with copies and post-increment
template<class It, class U> void units(It i, const It& end, const U* exp, int n, const char* w) {
  int how = sym_choice(3), split = how == 2 ? sym_choice(n) : -1; It keep = i;
  for (int k = 0; k < n; ++k) { CHECK(i != end); CHECK(!(i == end)); sym_assert(*i == (typename It::value_type)exp[k], w); sym_observe(3, (u32)*i); if (k == split) keep = i; if (how == 1) { It o = i++; sym_assert(*o == (typename It::value_type)exp[k], w); } else { It& r = ++i; CHECK(&r == &i); } }
  CHECK(i == end); if (split >= 0) { for (int k = split; k < n; ++k) { CHECK(keep != end); sym_assert(*keep == (typename It::value_type)exp[k], "copy"); ++keep; } CHECK(keep == end); sym_cover("copied"); } }
void harness() {
  int mode = sym_param("mode", 19), L = sym_param("L", 5);
  if (mode == 19) { int n = sym_choice(L + 1); unsigned char* p = (unsigned char*)malloc(n ? n : 1); if (!n) { p[0] = 'x'; } sym_bytes(p, n);
    switch (sym_param("base", 0)) { case 0: walk8<basic_utf8_in_iterator<const char*, char32_t>>((const char*)p, p, n); break; case 1: { std::string s((const char*)p, n); walk8<basic_utf8_in_iterator<std::string::const_iterator, char32_t>>(s.cbegin(), p, n); break; } default: walk8<basic_utf8_in_iterator<const unsigned char*, char32_t>>((const unsigned char*)p, p, n); } return; }
  if (mode == 16) { int n = sym_choice(L + 1); if (sym_param("base", 0) == 0) { char16_t* p = (char16_t*)malloc(2 * n + 1); sym_bytes(p, 2 * n); walk16<char16_t, cutf16_in_utf32_out_iterator>(p, n); }
    else { wchar_t* p = (wchar_t*)malloc(4 * n + 1); sym_bytes(p, 4 * n); for (int i = 0; i < n; ++i) { const uint8_t* b = (const uint8_t*)(p + i); sym_assume(b[2] == 0); sym_assume(b[3] == 0); } walk16<wchar_t, cwchar_t_in_utf32_out_iterator>(p, n); } return; }
  // mode 20: code points -> units -> code points
  int n = 1 + sym_choice(L); char32_t* c = (char32_t*)malloc(4 * n); unsigned char e8[16]; u32 e16[8]; int n8 = 0, n16 = 0; for (int i = 0; i < n; ++i) { c[i] = symcp(); n8 += enc8(c[i], e8 + n8); n16 += enc16(c[i], e16 + n16); }
  char* t8 = (char*)malloc(n8); for (int i = 0; i < n8; ++i) t8[i] = (char)e8[i]; char16_t* t16 = (char16_t*)malloc(2 * n16); for (int i = 0; i < n16; ++i) t16[i] = (char16_t)e16[i]; wchar_t* tw = (wchar_t*)malloc(4 * n16); for (int i = 0; i < n16; ++i) tw[i] = (wchar_t)e16[i];
  const char32_t *cb = c, *ce = c + n; const char *b8 = t8, *f8 = t8 + n8; const char16_t *b16 = t16, *f16 = t16 + n16; const wchar_t *bw = tw, *fw = tw + n16;
  typedef basic_utf8_out_iterator<const char32_t*> o8; typedef basic_utf16_out_iterator<const char32_t*, char16_t> o16;
  switch (sym_param("what", 0)) {
  case 0: units(o8(cb, ce), o8(ce, ce), e8, n8, "utf-8 byte"); sym_cover("to utf-8"); break;
  case 1: units(o16(cb, ce), o16(ce, ce), e16, n16, "utf-16 unit"); sym_cover("to utf-16"); break;
  case 2: { typedef cutf8_in_utf32_out_iterator I; units(I(b8, f8), I(f8, f8), c, n, "decoded utf-8"); sym_cover("from utf-8"); break; }
  case 3: { typedef cutf16_in_utf32_out_iterator I; units(I(b16, f16), I(f16, f16), c, n, "decoded utf-16"); sym_cover("from utf-16"); break; }
  case 4: { typedef cutf8_in_utf32_out_iterator I; I i(b8, f8), e(f8, f8); units(cutf8_in_utf16_out_iterator(i, e), cutf8_in_utf16_out_iterator(e, e), e16, n16, "utf-8 to utf-16"); sym_cover("8 to 16"); break; }
  case 5: { typedef cutf16_in_utf32_out_iterator I; I i(b16, f16), e(f16, f16); units(cutf16_in_utf8_out_iterator(i, e), cutf16_in_utf8_out_iterator(e, e), e8, n8, "utf-16 to utf-8"); sym_cover("16 to 8"); break; }
  case 6: { typedef cwchar_t_in_utf32_out_iterator I; I i(bw, fw), e(fw, fw); units(cwchar_t_in_utf8_out_iterator(i, e), cwchar_t_in_utf8_out_iterator(e, e), e8, n8, "wide to utf-8"); break; }
  case 7: { typedef cutf8_in_utf32_out_iterator I; I i(b8, f8), e(f8, f8); units(cutf8_in_wchar_t_out_iterator(i, e), cutf8_in_wchar_t_out_iterator(e, e), e16, n16, "utf-8 to wide"); break; }
  case 8: { char16_t fl[8]; for (int i = 0; i < n16; ++i) fl[i] = (char16_t)(e16[i] / 256 + e16[i] % 256 * 256); const char16_t* f = fl; typedef basic_flip_iterator<const char16_t*> F; units(F(f), F(f + n16), e16, n16, "byte-swapped utf-16"); u32 fc[8]; for (int i = 0; i < n; ++i) fc[i] = (c[i] & 255) << 24 | (c[i] >> 8 & 255) << 16 | (c[i] >> 16 & 255) << 8 | c[i] >> 24; const u32* g = fc; typedef basic_flip_iterator<const u32*> G; for (int i = 0; i < n; ++i) { G x(g + i); sym_assert(*x == c[i], "byte-swapped utf-32"); } sym_cover("flip"); break; }
  }
}
