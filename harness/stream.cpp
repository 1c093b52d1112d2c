// C23: lexing through the stream iterator against lexing the same text in memory.
#include "fam.h"
#include <algorithm>
#include <cstring>
#include <istream>
#include <lexertl/iterator.hpp>
#include <lexertl/stream_shared_iterator.hpp>
using namespace orc;
typedef lexertl::stream_shared_iterator SI;
// hands the text to the stream in one piece
struct Buf : std::streambuf { Buf(char* t, int n) { setg(t, t, t + n); } };
void harness() {
  Fam f; f.make(sym_param("fam", 1)); if (f.thinned()) { sym_cover("thinned"); return; }
  int L = sym_param("L", 3); lexertl::rules r(f.s.flags); lexertl::state_machine sm; f.s.add(r); lexertl::generator::build(r, sm);
  unsigned bs = 1 + sym_choice(sym_param("bufs", 4)), inc = 1 + sym_choice(sym_param("incs", 3)), mode = sym_param("mode", 0);
  if (mode == 9) mode = sym_choice(6);
  char t[MAXL + 1]; sym_bytes(t, L); char u[MAXL + 1]; memcpy(u, t, L);
  Buf b(u, L); std::istream in(&b); SI first(in, bs, inc), end;
  typedef lexertl::match_results<SI> SR;
  lexertl::cmatch m(t, t + L); SR s(first, end), old; int o1 = 0, o2 = -1; std::vector<SR> kept; std::vector<std::pair<int, int>> ks;
  if (mode == 3) { // through the lexer iterators
    typedef lexertl::iterator<SI, lexertl::state_machine, SR> LI; LI it(first, end, sm), e; lexertl::citerator ci(t, t + L, sm), ce;
    for (int i = 0; i <= L; ++i) { CHECK((it == e) == (ci == ce)); if (ci == ce) break; CHECK(it->id == ci->id); CHECK(it->user_id == ci->user_id); CHECK(it->str() == ci->str()); if (i & 1) it++; else ++it; ++ci; }
    CHECK(it == e); sym_cover("iterator"); return; }
  if (mode >= 4) { // 4: go back to a saved position and lex again; 5: hand one stream's results to a variable that held another's
    Buf b2(t, L); std::istream in2(&b2); SR d(SI(in2, inc, bs), end), keep; lexertl::cmatch km; int turn = 0;
    if (mode == 5) { lexertl::cmatch x(t, t + L); lexertl::lookup(sm, d); lexertl::lookup(sm, x); CHECK(d.id == x.id); s = d; m = x; sym_cover("other stream"); }
    for (int i = 0; i <= 2 * L + 1; ++i) {
      lexertl::lookup(sm, m); lexertl::lookup(sm, s); CHECK(s.id == m.id); CHECK(s.user_id == m.user_id); CHECK(s.state == m.state);
      if (m.id == 0) { CHECK(s.first == end || m.first != t + L); if (mode == 5 || turn++ || keep.id == 0 || keep.id == SR::npos()) break; s = keep; m = km; { std::string x = s.str(); CHECK((int)x.size() == m.second - m.first); } sym_cover("went back"); continue; }
      std::string x = s.str(); CHECK((int)x.size() == m.second - m.first); for (int k = 0; k < m.second - m.first; ++k) CHECK(x[k] == m.first[k]);
      if (mode == 4 && i == 0) { keep = s; km = m; } }
    return; }
  for (int i = 0; i <= L; ++i) {
    lexertl::lookup(sm, m); lexertl::lookup(sm, s);
    CHECK(s.id == m.id); CHECK(s.user_id == m.user_id); CHECK(s.state == m.state); CHECK(s.bol == m.bol);
    if (m.id == 0) { CHECK(s.first == end || m.first != t + L); sym_cover("end"); break; }
    int a = m.first - t, z = m.second - t; sym_observe(1, m.id); sym_observe(2, z);
    std::string x = s.str(); CHECK((int)x.size() == z - a); for (int k = a; k < z; ++k) CHECK(x[k - a] == t[k]);
    if (z - a > (int)bs) sym_cover("longer than the buffer");
    if (mode == 1 && o2 < 0) { old = s; o1 = a; o2 = z; }           // the first token is kept alive
    if (mode == 2) { kept.push_back(s); ks.push_back({ a, z }); }    // every token is kept alive
  }
  if (o2 >= 0) { std::string x = old.str(); CHECK((int)x.size() == o2 - o1); for (int k = o1; k < o2; ++k) CHECK(x[k - o1] == t[k]); sym_cover("kept"); }
  for (size_t q = 0; q < kept.size(); ++q) { std::string x = kept[q].str(); int a = ks[q].first, z = ks[q].second; CHECK((int)x.size() == z - a); for (int k = a; k < z; ++k) CHECK(x[k - a] == t[k]); sym_cover("kept"); }
}
