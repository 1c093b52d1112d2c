// Writes the C++ generated for each description of gensets.h, in both table forms.
#include <iostream>
#include <lexertl/generate_cpp.hpp>
#define SYM_NATIVE_GEN
#include "gensets.h"
#include <cstdio>
#include <cstdlib>
static int np = 12;
extern "C" { uint8_t sym_byte() { abort(); } void sym_bytes(void*, size_t) { abort(); } void sym_assume(int c) { if (!c) abort(); } void sym_assert(int c, const char*) { if (!c) abort(); } unsigned sym_choice(unsigned) { abort(); } uint64_t sym_conc(uint64_t v) { return v; } void sym_observe(unsigned, uint64_t) {} void sym_cover(const char*) {}
long sym_param(const char*, long d) { return d; } int sym_and(int a, int b) { return a && b; } int sym_exists(int) { abort(); } void sym_fatal(const char*) { abort(); } }
template<class C> void emit(const char* pre, int n) {
  typedef orc::Lib<C> LB; std::string rc[2], pc[2];
  for (int i = 0; i < n; ++i) { orc::Fam f; gensets::make(f, i); typename LB::rules r(f.s.flags); typename LB::sm sm; f.s.add(r); LB::gen::build(r, sm); bool rec = sm.data()._features & *lexertl::feature_bit::recursive;
    for (int p = 0; p < 2; ++p) { std::string nm = std::string("gen_lex_") + pre + (p ? "p" : "t") + std::to_string(i); lexertl::table_based_cpp::generate(nm, sm, p, std::cout); (rec ? rc : pc)[p] += "case " + std::to_string(i) + ": " + nm + "(m); break; "; } }
  for (int p = 0; p < 2; ++p) { std::string x = std::string(pre) + (p ? "p" : "t"); std::cout << "#define GEN_CASES_" << x << " " << pc[p] << "\n#define GEN_RCASES_" << x << " " << rc[p] << "\n"; } }
int main(int c, char** v) { emit<char>("c", atoi(v[1])); emit<char32_t>("w", atoi(v[2])); }
