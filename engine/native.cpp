// Native counterpart of the harness interface: concrete inputs from a file, the
// harness runs against an ordinary build of the real code.  Exit 1 + "FAIL msg"
// when an assertion fails.
#include "../harness/sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <new>
#include "arena.h"
static bool inHarness = false;
void *operator new(std::size_t n) { return inHarness ? arena::alloc(n) : malloc(n ? n : 1); }
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept {
  if (!p) return;
  if (arena::in(p)) arena::release(p);
  else free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
static std::map<std::string, long long> in;
static int failures = 0;
static std::vector<char> hs = {0, 1, 0};
static long get(const char *n, long lo, long hi) {
  auto it = in.find(n);
  long v = it != in.end() ? it->second : (lo <= 0 && 0 <= hi ? 0 : lo);
  return v < lo ? lo : v > hi ? hi : v;
}
static int mk(bool v) { return v ? 1 : 2; }
static bool val(int h) { return h == 1; }
extern "C" {
double rs_h_dyadic(const char *n, long lo, long hi, int s) { return std::ldexp((double)get(n, lo, hi), -s); }
double rs_h_query(const char *n, long lo, long hi, int s) { return rs_h_dyadic(n, lo, hi, s); }
long rs_h_choice(const char *n, long lo, long hi) { return get(n, lo, hi); }
double rs_h_fp(const char *n) {
  long long v = in.count(n) ? in[n] : 0;
  double d;
  memcpy(&d, &v, 8);
  return d;
}
unsigned char rs_h_byte(const char *n, int lo, int hi) { return get(n, lo, hi); }
void rs_h_assume(int c) {
  if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(failures ? 1 : 2); }
}
void rs_h_assert(const char *m, int c) {
  if (!c) { printf("FAIL %s\n", m); fflush(stdout); failures++; }
}
int rs_h_b_const(int v) { return mk(v); }
int rs_h_b_lt(double a, double b) { return mk(a < b); }
int rs_h_b_le(double a, double b) { return mk(a <= b); }
int rs_h_b_eq(double a, double b) { return mk(a == b); }
int rs_h_b_same(double a, double b) { return mk(memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)) ); }
int rs_h_b_not(int a) { return mk(!val(a)); }
int rs_h_b_and(int a, int b) { return mk(val(a) && val(b)); }
int rs_h_b_or(int a, int b) { return mk(val(a) || val(b)); }
int rs_h_b_xor(int a, int b) { return mk(val(a) != val(b)); }
double rs_h_b_num(int b) { return val(b); }
void rs_h_b_assert(const char *m, int b) { rs_h_assert(m, val(b)); }
void rs_h_b_assume(int b) { rs_h_assume(val(b)); }
int rs_h_b_branch(int b) { return val(b); }
int rs_h_b_eval3(int b) { return val(b); }
void rs_h_observe(const char *t, double v) { printf("OBS %s %.17g\n", t, v); }
void rs_h_heap(int d) { arena::mode = d; }
void rs_h_fail(const char *m) { rs_h_assert(m, 0); fflush(stdout); _exit(1); }
void rs_h_abandon(void) { fflush(stdout); _exit(failures ? 1 : 0); }
int rs_h_tier(void) { return get("tier", 0, 1); }
int rs_h_symbolic(void) { return 0; }
int rs_h_is_sym(double) { return 0; }
double rs_h_peek(double v) { return v; }
long rs_h_live(void) { return arena::live; }
double rs_h_concretize(double v) { return v; }
}
int main(int argc, char **argv) {
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r");
    if (!f) return 66;
    int n;
    if (fscanf(f, "%d", &n) == 1)
      for (int i = 0; i < n; i++) {
        char b[256];
        long long v;
        if (fscanf(f, "%255s %lld", b, &v) == 2) in[b] = v;
      }
    fclose(f);
  }
  alarm(getenv("RS_ALARM") ? atoi(getenv("RS_ALARM")) : 60);
  inHarness = true;
  try { harness(); } catch (...) { printf("FAIL exception escaped\n"); return 1; }
  fflush(stdout);
  return failures ? 1 : 0;
}
