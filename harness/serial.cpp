// C17: save and load, with symbolic values in the tables.
#include "fam.h"
#include <lexertl/serialise.hpp>
#ifndef CH
#define CH char
#endif
#ifndef IDT
#define IDT uint16_t
#endif
#ifndef SC
#define SC char
#endif
using namespace orc;
typedef Lib<CH, IDT> LB;
template<class SM> void equal(const SM& a, const SM& b) {
  const auto &x = a.data(), &y = b.data(); sym_assert(x._eoi == y._eoi, "end-of-input id"); sym_assert(x._features == y._features, "features");
  sym_assert(x._lookup.size() == y._lookup.size(), "lookup size"); sym_assert(x._dfa.size() == y._dfa.size(), "table count"); sym_assert(x._dfa_alphabet.size() == y._dfa_alphabet.size(), "alphabet count");
  for (size_t i = 0; i < x._dfa_alphabet.size(); ++i) sym_assert(x._dfa_alphabet[i] == y._dfa_alphabet[i], "alphabet");
  for (size_t i = 0; i < x._lookup.size(); ++i) { sym_assert(x._lookup[i].size() == y._lookup[i].size(), "lookup row size"); for (size_t j = 0; j < x._lookup[i].size(); ++j) sym_assert(x._lookup[i][j] == y._lookup[i][j], "lookup entry"); }
  for (size_t i = 0; i < x._dfa.size(); ++i) { sym_assert(x._dfa[i].size() == y._dfa[i].size(), "table size"); for (size_t j = 0; j < x._dfa[i].size(); ++j) sym_assert(x._dfa[i][j] == y._dfa[i][j], "table entry"); } }
template<class C2, class I2> bool rejects(const std::basic_string<SC>& s) { std::basic_stringstream<SC> z(s); lexertl::basic_state_machine<C2, I2> o; bool t = false; try { lexertl::load(z, o); } catch (const lexertl::runtime_error&) { t = true; } return t; }
void harness() {
  Fam f; f.make(sym_param("fam", 3)); if (f.thinned()) { sym_cover("thinned"); return; }
  LB::rules r(f.s.flags); LB::sm sm, used, got; f.s.add(r); LB::gen::build(r, sm); int what = sym_param("what", 0);
  auto& d = sm.data(); IDT v = 0; if (what < 5) { // one symbolic byte at any of the positions, the others all 0, all 255 or mixed
    unsigned char* q = (unsigned char*)&v; unsigned pos = sym_choice(sizeof v), fill = sizeof v > 1 ? sym_choice(3) : 0; for (unsigned i = 0; i < sizeof v; ++i) q[i] = fill == 0 ? 0 : fill == 1 ? 255 : 0x21 + 0x60 * i; q[pos] = sym_byte(); }
  switch (what) { // any value at some place
  case 0: d._eoi = v; break; case 1: d._features = v; break; case 2: d._dfa_alphabet.back() = v; break; case 3: d._lookup[0][sym_choice(3) * 100 + 14] = v; break;
  case 4: { unsigned k = sym_choice(4); size_t n = d._dfa.back().size(); d._dfa.back()[k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : n / 2 + 1] = v; break; }
  case 5: { size_t i = sym_choice(4) * 20; for (int k = 0; k < 2; ++k) { IDT w = 0; sym_bytes(&w, 1); d._lookup.back()[i + k] = w; } break; }
  case 6: break; case 7: sm.clear(); break; }
  const LB::sm& csm = sm; std::basic_stringstream<SC> ss; lexertl::save(csm, ss);
  if (what == 6) { std::basic_string<SC> txt = ss.str(); CHECK((rejects<CH, IDT>(txt)) == false); CHECK((rejects<CH, typename std::conditional<sizeof(IDT) == 2, uint32_t, uint16_t>::type>(txt))); CHECK((rejects<typename std::conditional<sizeof(CH) == 1, char32_t, char>::type, IDT>(txt))); CHECK((rejects<typename std::conditional<sizeof(CH) == 2, char, char16_t>::type, IDT>(txt))); sym_cover("mismatch");
    // two machines in one stream, loaded into machines that held something else
    LB::rules r2; r2.push(widen<CH>("ab|c"), 9); LB::gen::build(r2, used); lexertl::save(used, ss); LB::sm a(used), b(sm); lexertl::load(ss, a); lexertl::load(ss, b); equal(a, sm); equal(b, used); sym_cover("two machines"); return; }
  lexertl::load(ss, got); equal(got, sm); equal(csm, got); if (what == 7) { sym_cover("empty"); return; } sym_cover("loaded");
}
