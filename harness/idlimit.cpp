// C37: a lexer that does not fit the chosen id type is rejected; one that is accepted lexes like the same lexer with a wider id type.
#include "sym.h"
#include <lexertl/generator.hpp>
#include <lexertl/lookup.hpp>
#include <string>
#ifndef CH
#define CH char
#endif
template<class ID> struct Lx { typedef lexertl::basic_rules<char, CH, ID> R; typedef lexertl::basic_state_machine<CH, ID> SM; typedef lexertl::basic_generator<R, SM> G; typedef lexertl::match_results<const CH*, ID> MR;
  SM sm; bool ok;
  Lx(int shape, int n) : ok(true) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    auto one = [&](int i) { std::string s; if (i < 62) s += al[i]; else { char b[8]; int v = i - 62 + 128; b[0] = '\\'; b[1] = 'x'; b[2] = "0123456789abcdef"[v >> 4]; b[3] = "0123456789abcdef"[v & 15]; b[4] = 0; s = b; } return s; };
    try { R r(2);
      switch (shape) {
      case 0: for (int i = 0; i < n; ++i) { r.push(one(i) + "$", 1 + 2 * i); r.push(one(i) + "\\n!", 2 + 2 * i); } break; // rows added for '$'
      case 1: for (int i = 0; i < n; ++i) r.push(one(i % 180), 1 + i % 200); break;                                      // rules
      case 2: { std::string s = "a{" + std::to_string(n) + "}"; r.push(s, 1); break; }                                   // one long rule
      case 3: { std::string s = "["; for (int i = 0; i < n; ++i) s += one(i); r.push(s + "]b", 1); for (int i = 0; i < n; ++i) r.push(one(i), 2 + i % 100, 3); break; } // classes
      case 4: r.push_state("A"); for (int k = 0; k < 2; ++k) { for (int i = 0; i < n; ++i) { const char* st = k ? "A" : "INITIAL"; r.push(st, one(i), 1 + (i + k * 7) % 200, k ? "INITIAL" : "A"); } } break; // two states
      case 6: r.push("a{" + std::to_string(n) + "}(b|[cd]e)", 1); r.push("a*f", 2); break;                                  // rows of two rules
      case 7: for (int i = 1; i < n; ++i) r.push_state(("S" + std::to_string(i)).c_str());                                    // a chain of start states
        for (int i = 0; i < n; ++i) { std::string f = i ? "S" + std::to_string(i) : "INITIAL", g = i + 1 < n ? "S" + std::to_string(i + 1) : "INITIAL"; r.push(f.c_str(), "a", 1 + i % 200, g.c_str()); r.push(f.c_str(), "b", 201 + i % 50, "."); } break;
      case 8: case 9: { std::string s; for (int i = 0; i < n; ++i) { char b[6] = { i ? '|' : '(', '\\', 'x', "0123456789abcdef"[i >> 4], "0123456789abcdef"[i & 15], 0 }; s += b; } r.push(s + (shape == 8 ? ")z?" : ")$"), 1); if (shape == 9) r.push("b", 2); break; } // columns
      case 5: r.push_state("A"); for (int k = 0; k < 2; ++k) for (int i = 0; i < n; ++i) r.push(k ? "A" : "INITIAL", one(i), 1 + i % 200, k ? "INITIAL" : "A"); r.push("A", "a", 9, "INITIAL"); break; // the last rule can never win
      } G::build(r, sm); } catch (const lexertl::runtime_error&) { ok = false; } }
};
void harness() { int shape = sym_param("shape", 0), n = sym_param("lo", 1) + sym_choice(sym_param("w", 1)), L = sym_param("L", 2);
  Lx<uint8_t> a(shape, n); Lx<uint32_t> b(shape, n); if (shape != 5) sym_assert(b.ok, "the wide id type accepts it"); sym_assert(!a.ok || b.ok, "rejected alike"); sym_observe(1, a.ok);
  if (!a.ok) { sym_cover("rejected"); return; }
  int P = shape == 2 ? n - 1 : shape == 6 ? n : shape == 7 ? n - 2 : 0; if (sym_param("short", 0)) P = 0; // the last characters are symbolic
  static CH t[400]; for (int i = 0; i < P; ++i) t[i] = 'a'; sym_text(t + P, L); Lx<uint8_t>::MR m(t, t + P + L); Lx<uint32_t>::MR w(t, t + P + L);
  for (int k = 0; k <= L + (shape == 7 ? P : 0); ++k) { lexertl::lookup(a.sm, m); lexertl::lookup(b.sm, w); sym_assert(m.id == w.id || (m.id == 0xff && w.id == 0xffffffffu), "id"); sym_assert(m.first == w.first && m.second == w.second, "position"); CHECK(m.state == w.state && (m.user_id == w.user_id || (m.user_id == 0xff && w.user_id == 0xffffffffu))); if (!m.id) break; }
  sym_cover("same tokens"); }
