// Harness interface: the same harness source is compiled (a) through the
// instrumentation pass for the symbolic run and (b) natively for the replay of a
// counterexample against the real build.
#pragma once
#include <cstdint>
extern "C" {
double rs_h_dyadic(const char *name, long lo, long hi, int shift);  // k*2^-shift, lo<=k<=hi
double rs_h_query(const char *name, long lo, long hi, int shift);    // like rs_h_dyadic, for a variable only the oracle sees
long rs_h_choice(const char *name, long lo, long hi);               // forked integer
double rs_h_fp(const char *name);                                   // any double
unsigned char rs_h_byte(const char *name, int lo, int hi);
void rs_h_assume(int c);
void rs_h_assert(const char *msg, int c);
int rs_h_b_const(int v);
int rs_h_b_lt(double a, double b);
int rs_h_b_le(double a, double b);
int rs_h_b_eq(double a, double b);
int rs_h_b_same(double a, double b);
int rs_h_b_not(int a);
int rs_h_b_and(int a, int b);
int rs_h_b_or(int a, int b);
int rs_h_b_xor(int a, int b);
double rs_h_b_num(int b);
void rs_h_b_assert(const char *msg, int b);
void rs_h_b_assume(int b);
int rs_h_b_branch(int b);
int rs_h_b_eval3(int b);
void rs_h_observe(const char *tag, double v);
void rs_h_heap(int descending);  // address order of later allocations
void rs_h_fail(const char *msg);
void rs_h_abandon(void);
int rs_h_tier(void);  // 0 quick, 1 thorough
int rs_h_symbolic(void);
int rs_h_is_sym(double v);
double rs_h_concretize(double v);
double rs_h_peek(double v);  // concrete value on this path; guides the oracle, proves nothing
long rs_h_live(void);        // heap blocks the harness and the code under test hold
void harness(void);
}

// symbolic boolean that does not fork
struct B {
  int h;
  explicit B(int handle) : h(handle) {}
  static B of(bool v) { return B(rs_h_b_const(v)); }
  B operator&(B o) const { return B(rs_h_b_and(h, o.h)); }
  B operator|(B o) const { return B(rs_h_b_or(h, o.h)); }
  B operator^(B o) const { return B(rs_h_b_xor(h, o.h)); }
  B operator!() const { return B(rs_h_b_not(h)); }
  B &operator&=(B o) { h = rs_h_b_and(h, o.h); return *this; }
  B &operator|=(B o) { h = rs_h_b_or(h, o.h); return *this; }
  B &operator^=(B o) { h = rs_h_b_xor(h, o.h); return *this; }
};
static inline B lt(double a, double b) { return B(rs_h_b_lt(a, b)); }
static inline B le(double a, double b) { return B(rs_h_b_le(a, b)); }
static inline B gt(double a, double b) { return B(rs_h_b_lt(b, a)); }
static inline B ge(double a, double b) { return B(rs_h_b_le(b, a)); }
static inline B eq(double a, double b) { return B(rs_h_b_eq(a, b)); }
static inline B same(double a, double b) { return B(rs_h_b_same(a, b)); }
static inline B iff(B a, B b) { return !(a ^ b); }
static inline B within(double v, double lo, double hi) { return le(lo, v) & le(v, hi); }
static inline B imp(B a, B b) { return (!a) | b; }
static inline double num(B b) { return rs_h_b_num(b.h); }
static inline void check(const char *msg, B b) { rs_h_b_assert(msg, b.h); }
static inline void check(const char *msg, bool b) { rs_h_b_assert(msg, rs_h_b_const(b)); }
static inline void assume(B b) { rs_h_b_assume(b.h); }
static inline void assume(bool b) { rs_h_assume(b); }
static inline bool fork_on(B b) { return rs_h_b_branch(b.h); }
// Several claims decided by one query; the native replay names the one that fails.
struct Claims {
  B all = B::of(true);
  void add(const char *msg, B b) {
    if (rs_h_symbolic()) all &= b;
    else rs_h_b_assert(msg, b.h);
  }
  void add(const char *msg, bool b) { add(msg, B::of(b)); }
  void settle(const char *msg) {
    if (rs_h_symbolic()) rs_h_b_assert(msg, all.h);
    all = B::of(true);
  }
};
