// Deterministic heap shared by the symbolic run and the native replay.  Memory is
// never reused within a path and freed memory is poisoned, so the address order
// of objects is a function of the program's allocation sequence alone.
// Mode 1 hands out descending addresses, mode 0 ascending ones.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
namespace arena {
static const uint64_t SIZE = 1ull << 30;
static char *base = nullptr;
static uint64_t lo, hi;  // offsets
static int mode = 0;
static long live = 0;  // blocks allocated and not yet freed
static void init() {
  base = (char *)mmap((void *)0x100000000000ull, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (base == MAP_FAILED) { fprintf(stderr, "arena: mmap failed\n"); _exit(70); }
  lo = 0;
  hi = SIZE;
}
static bool in(void *p) { return base && (char *)p >= base && (char *)p < base + SIZE; }
static void *alloc(uint64_t n, uint64_t al = 16) {
  if (!base) init();
  if (al < 16) al = 16;
  uint64_t tot = ((n + 15) & ~15ull) + 48;
  if (tot + lo + al >= hi || tot < n) { fprintf(stderr, "arena: out of memory (%llu)\n", (unsigned long long)n); abort(); }
  uint64_t off;
  if (mode == 0) {
    off = (lo + 16 + al - 1) & ~(al - 1);
    lo = off + ((n + 15) & ~15ull) + 32;
  } else {
    off = (hi - tot) & ~(al - 1);
    if (off < 16) abort();
    hi = off - 16;
  }
  char *p = base + off;
  *(uint64_t *)(p - 8) = n;
  live++;
  memset(p, 0xCC, n);
  return p;
}
static void release(void *p) {
  if (!p) return;
  if (!in(p)) { fprintf(stderr, "arena: free of foreign pointer\n"); abort(); }
  uint64_t n = *(uint64_t *)((char *)p - 8);
  if (n == 0xDDDDDDDDDDDDDDDDull) { fprintf(stderr, "arena: double free\n"); abort(); }
  live--;
  memset(p, 0xDD, n);
  *(uint64_t *)((char *)p - 8) = 0xDDDDDDDDDDDDDDDDull;
}
static void reset() {
  if (!base) return;
  if (lo) madvise(base, (lo + 4095) & ~4095ull, MADV_DONTNEED);
  if (hi < SIZE) { uint64_t h = hi & ~4095ull; madvise(base + h, SIZE - h, MADV_DONTNEED); }
  lo = 0;
  hi = SIZE;
  live = 0;
}
}  // namespace arena
