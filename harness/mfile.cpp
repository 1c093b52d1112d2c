// C24: memory_file against recording stand-ins for the system calls, every outcome of every call.
#include "sym.h"
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
static bool fdlive[8]; static int nfd; static size_t fsize; static const char* fname;
struct Map { char* p; size_t n; bool live; }; static Map maps[16]; static int nmaps, nlive; static char area[16];
static const size_t PG = 4096; static bool failed;
static int st_open(const char* n, int fl, ...) { sym_assert(!strcmp(n, fname), "opens the file it was given"); sym_assert((fl & O_ACCMODE) == O_RDONLY, "opens for reading"); 
  if (sym_choice(2)) { failed = true; sym_cover("open fails"); return -1; }
  int fd = sym_choice(2) ? 0 : 3; while (fdlive[fd]) ++fd; fdlive[fd] = true; ++nfd; return fd; }
static int st_fstat(int fd, struct stat* b) { sym_assert(fd >= 0 && fd < 8 && fdlive[fd], "fstat of an open descriptor"); if (sym_choice(2)) { failed = true; sym_cover("fstat fails"); return -1; }
  uint8_t z[3]; sym_bytes(z, 3); fsize = z[0] | z[1] << 8 | z[2] << 16; memset(b, 0, sizeof *b); b->st_size = fsize; b->st_mode = S_IFREG | 0644; return 0; }
static void* st_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) { sym_assert(fd >= 0 && fd < 8 && fdlive[fd], "mmap of an open descriptor"); sym_assert(n == fsize && off == 0 && (prot & PROT_READ) && !(prot & PROT_WRITE), "maps the whole file for reading");
   if (n == 0) { sym_cover("empty file"); return MAP_FAILED; } if (sym_choice(2)) { failed = true; sym_cover("mmap fails"); return MAP_FAILED; }
  sym_assert(nmaps < 16, "few maps"); char* p = area + nmaps; maps[nmaps++] = { p, n, true }; ++nlive; return p; }
static int st_munmap(void* p, size_t n) { for (int i = 0; i < nmaps; ++i) if (maps[i].p == p && maps[i].live) { sym_assert((n + PG - 1) / PG == (maps[i].n + PG - 1) / PG, "unmaps all that was mapped"); maps[i].live = false; --nlive; return 0; }
  sym_assert(0, "unmaps only what is mapped"); return -1; }
static int st_close(int fd) { sym_assert(fd >= 0 && fd < 8 && fdlive[fd], "closes only a descriptor it opened"); fdlive[fd] = false; --nfd; if (sym_param("intr", 0) && (sym_choice(2))) { errno = EINTR; return -1; } return 0; }
#define open st_open
#define fstat st_fstat
#define mmap st_mmap
#define munmap st_munmap
#define close st_close
#include <lexertl/memory_file.hpp>
#ifndef MFCH
#define MFCH char
#endif
typedef lexertl::basic_memory_file<MFCH> MF;
static void look(MF& f, bool opened = true) {
  if (!f.data()) { CHECK(f.size() == 0); sym_assert(failed | !opened | (fsize == 0), "a file that can be opened is shown"); sym_cover("nothing shown"); return; }
  CHECK(nlive == 1); if (nlive != 1) return; const Map& c = maps[nmaps - 1];
  CHECK((const char*)f.data() == c.p); CHECK(f.size() == c.n / sizeof(MFCH));
  sym_cover("contents shown"); }
static void none() { CHECK(nlive == 0); CHECK(nfd == 0); }
void harness() {
  for (bool& b : fdlive) b = false; nfd = 0; fsize = 0; nmaps = nlive = 0; int k = sym_param("ops", 2);
  static char nm[] = "some/file"; fname = nm;
  failed = false; bool o = sym_choice(2); MF* f = o ? new MF(nm) : new MF(); look(*f, o);
  for (int i = 0; i < k; ++i) {
    unsigned op = sym_choice(3);
    failed = false; if (op == 0) { f->open(nm); look(*f); CHECK(nlive <= 1); CHECK(nfd <= 1); sym_cover("open"); }
    else if (op == 1) { f->close(); CHECK(!f->data()); CHECK(f->size() == 0); none(); sym_cover("close"); }
    else { delete f; none(); f = new MF(nm); look(*f); sym_cover("new"); }
  }
  delete f; none();
}
