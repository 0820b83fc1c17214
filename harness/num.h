// helpers for the numeric harnesses
#pragma once
#include "rmath.h"
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <string>
using rmath::vec2;
static inline B near(double a, double b, double eps) { return le(a - b, eps) & le(b - a, eps); }
static inline double sym_int(const char *n, long lo, long hi) { return rs_h_dyadic(n, lo, hi, 0); }
static inline B implies(B a, B b) { return (!a) | b; }
// the harness's own Bernstein evaluation (independent of the code under test)
static inline double bern(double a, double b, double c, double d, double t) {
  double s = 1 - t;
  return a * (s * s * s) + b * (3 * s * s * t) + c * (3 * s * t * t) + d * (t * t * t);
}
static inline double dbern(double a, double b, double c, double d, double t) {
  double s = 1 - t;
  return (b - a) * (3 * s * s) + (c - b) * (6 * s * t) + (d - c) * (3 * t * t);
}
