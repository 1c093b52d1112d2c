// Native side of the harness API: replays one file of concrete runs.
// usage: prog FILE   FILE lines:  "P name value" | "R b0 b1 ..." (a run)
// prints per run:  "RUN i" , "O tag value"*, "END" | "FAIL msg" | "BAD why"
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>
#include <typeinfo>
static std::map<std::string, long> P; static std::vector<int> B; static size_t pos;
struct StopRun {};
extern "C" {
uint8_t sym_byte() { if (pos >= B.size()) { puts("BAD out of bytes"); fflush(stdout); _Exit(3); } return (uint8_t)B[pos++]; }
void sym_bytes(void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = sym_byte(); }
void sym_assume(int c) { if (!c) { puts("BAD assumption false"); fflush(stdout); _Exit(3); } }
void sym_assert(int c, const char* m) { if (!c) { printf("FAIL %s\n", m); fflush(stdout); _Exit(1); } }
unsigned sym_choice(unsigned n) { if (n == 1) return 0; unsigned v = sym_byte(); if (v >= n) { puts("BAD choice"); fflush(stdout); _Exit(3); } return v; }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_observe(unsigned t, uint64_t v) { printf("O %u %llu\n", t, (unsigned long long)v); }
void sym_cover(const char*) {}
long sym_param(const char* n, long d) { auto it = P.find(n); return it == P.end() ? d : it->second; }
int sym_and(int a, int b) { return a && b; }
int sym_exists(int) { return sym_byte(); }
void sym_fatal(const char* m) { printf("FAIL %s\n", m); fflush(stdout); _Exit(1); }
}
int main(int argc, char** argv) {
  std::ifstream f(argv[1]); std::string line; int n = 0;
  while (std::getline(f, line)) { std::istringstream s(line); std::string k; s >> k;
    if (k == "P") { std::string nm; long v; s >> nm >> v; P[nm] = v; }
    else if (k == "R") { B.clear(); pos = 0; int b; while (s >> b) B.push_back(b); printf("RUN %d\n", n++); fflush(stdout);
      try { harness(); } catch (std::exception& e) { printf("FAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _Exit(1); } catch (...) { printf("FAIL uncaught exception\n"); fflush(stdout); _Exit(1); }
      puts("END"); fflush(stdout); } }
  return 0;
}
