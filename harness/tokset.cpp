// Character-set algebra on arbitrary normalised operands: every bound is symbolic.
#include <lexertl/string_token.hpp>
#include "sym.h"
#ifndef CH
#define CH char
#endif
typedef lexertl::basic_string_token<CH> tok; typedef tok::index_type I; typedef tok::range range; typedef uint32_t u32;
static const u32 MAXV = sizeof(CH) == 1 ? 0xff : sizeof(CH) == 2 ? 0xffff : 0x10ffff;
static u32 val() { CH c; sym_bytes(&c, sizeof c); u32 v = (u32)(I)c; if (sizeof(CH) == 4) sym_assume(v <= MAXV); return v; }
static void norm(tok& t, int n) { // n sorted, disjoint, non-adjacent symbolic ranges
  u32 prev = 0; for (int i = 0; i < n; ++i) { u32 a = val(), b = val(); sym_assume(a <= b); if (i) sym_assume(a > prev + 1); prev = b; t._ranges.push_back(range((I)a, (I)b)); } }
static int in(const tok& t, u32 c) { for (auto& x : t._ranges) { if (c < (u32)x.first) return 0; if (c <= (u32)x.second) return 1; } return 0; }
static void normal(const tok& t, const char* m) { for (size_t i = 0; i < t._ranges.size(); ++i) { sym_assert((u32)t._ranges[i].first <= (u32)t._ranges[i].second, m); sym_assert((u32)t._ranges[i].second <= MAXV, m); if (i) sym_assert((u32)t._ranges[i].first > (u32)t._ranges[i - 1].second + 1, m); } }
void harness() {
  int op = sym_param("op", 0); int mA = sym_param("a", 2), mB = sym_param("b", 2);
  tok a; int na = sym_param("na", -1); if (na < 0) na = sym_choice(mA + 1); norm(a, na); u32 c = val();
  int ca = in(a, c);
  switch (op) {
  case 0: { u32 lo = val(), hi = val(); sym_assume(lo <= hi); a.insert(range((I)lo, (I)hi)); normal(a, "insert keeps the set normalised"); sym_assert(in(a, c) == (ca | ((c >= lo) & (c <= hi))), "insert adds exactly the range"); sym_cover("insert"); break; }
  case 1: { tok b; int nb = sym_param("nb", -1); if (nb < 0) nb = sym_choice(mB + 1); norm(b, nb); int cb = in(b, c); tok b0(b); a.insert(b); normal(a, "union keeps the set normalised"); sym_assert(in(a, c) == (ca | cb), "union"); sym_assert(in(b, c) == cb, "operand unchanged"); sym_cover("union"); break; }
  case 2: { a.negate(); normal(a, "complement keeps the set normalised"); sym_assert(in(a, c) == !ca, "complement"); if (a.size() > (size_t)na) sym_cover("more"); a.negate(); normal(a, "normal2"); sym_assert(in(a, c) == ca, "double complement"); CHECK((int)a.size() == na); sym_cover("negate"); break; }
  case 3: { tok b; int nb = sym_param("nb", -1); if (nb < 0) nb = sym_choice(mB + 1); norm(b, nb); int cb = in(b, c); tok o; a.intersect(b, o); normal(o, "overlap normalised"); normal(a, "left rest normalised"); normal(b, "right rest normalised");
    sym_assert(in(o, c) == (ca & cb), "intersection"); sym_assert(in(a, c) == (ca & !cb), "left rest"); sym_assert(in(b, c) == (cb & !ca), "right rest"); CHECK(o.empty() == (o.size() == 0)); if (!o.empty() && !a.empty() && !b.empty()) sym_cover("proper overlap"); sym_cover("intersect"); break; }
  case 4: { tok b; int nb = sym_param("nb", -1); if (nb < 0) nb = sym_choice(mB + 1); norm(b, nb); int cb = in(b, c); a.remove(b); normal(a, "difference normalised"); sym_assert(in(a, c) == (ca & !cb), "difference"); sym_assert(in(b, c) == cb, "operand unchanged"); sym_cover("remove"); break; }
  case 5: { // queries, constructors, swap, copies
    tok b; int nb = sym_param("nb", -1); if (nb < 0) nb = sym_choice(mB + 1); norm(b, nb); int cb = in(b, c);
    if (na == 0) CHECK(!a.any()); CHECK(a.size() == (size_t)na); CHECK(a.empty() == (na == 0));
    if (a.any()) { sym_assert(ca, "any means every character"); } else { tok n(a); n.negate(); CHECK(!n.empty()); }
    if (a == b) { sym_assert(ca == cb, "equal sets hold the same characters"); CHECK(!(a < b)); CHECK(!(b < a)); } else { CHECK((a < b) != (b < a)); }
    uint64_t sz = 0; for (auto& x : a._ranges) sz += (uint64_t)x.second - x.first + 1; sym_assert(a.negatable() == (sz > MAXV / 2), "negatable");
    tok s(a); s.swap(b); sym_assert(in(s, c) == cb, "swap"); sym_assert(in(b, c) == ca, "swap"); s.clear(); CHECK(s.empty());
    tok k((CH)c); normal(k, "single"); u32 d = val(); sym_assert(in(k, d) == (c == d), "single character"); sym_assume(c <= d); tok r((CH)c, (CH)d); u32 e = val(); sym_assert(in(r, e) == ((e >= c) & (e <= d)), "range constructor");
    sym_cover("queries"); break; }
  }
}
