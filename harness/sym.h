// Harness API.  The same harness is executed symbolically (LLVM IR) and, for
// replay, natively with the concrete bytes of a path or counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t sym_byte(void);                       // fresh symbolic byte
void sym_bytes(void* p, size_t n);            // n fresh symbolic bytes
void sym_assume(int c);
void sym_assert(int c, const char* msg);
unsigned sym_choice(unsigned n);              // fresh value 0..n-1, one path per value
uint64_t sym_conc(uint64_t v);                // one path per feasible value
void sym_observe(unsigned tag, uint64_t v);   // compared with the native replay
void sym_cover(const char* label);            // must be reached by some path
long sym_param(const char* name, long dflt);  // job parameter
int sym_and(int a, int b);                    // non-forking conjunction
int sym_exists(int c);                        // does any value satisfy c? (non-forking; verdict recorded for replay)
void sym_fatal(const char*) __attribute__((noreturn));
void harness(void);
}
#define CHECK(c) sym_assert((c), #c)
// symbolic text; wide characters stay within Unicode (job parameter low=1: within 0..255)
template<class C> inline void sym_text(C* t, int n) {
  sym_bytes(t, n * sizeof(C)); if (sizeof(C) == 1) return; bool low = sym_param("low", 0);
  for (int i = 0; i < n; ++i) { const uint8_t* b = (const uint8_t*)(t + i); if (low) { for (unsigned k = 1; k < sizeof(C); ++k) sym_assume(b[k] == 0); } else if (sizeof(C) == 4) { sym_assume(b[3] == 0); sym_assume(b[2] <= 0x10); } } }
