// C14: the polynomial solvers return real roots only, and all of them.
#include "num.h"
// number of distinct real roots of a3 x^3 + a2 x^2 + a1 x + a0, integers, a3 != 0
static int distinct_roots(long a, long b, long c, long d) {
  long disc = 18 * a * b * c * d - 4 * b * b * b * d + b * b * c * c - 4 * a * c * c * c - 27 * a * a * d * d;
  if (disc > 0) return 3;
  if (disc < 0) return 1;
  return b * b == 3 * a * c ? 1 : 2;
}
extern "C" void harness(void) {
  bool deep = rs_h_tier();
  long mode = rs_h_choice("mode", 0, 3);
  Claims cl;
  if (mode == 0) {  // quadratic, constant term symbolic
    long a = rs_h_choice("a", -4, 4), b = rs_h_choice("b", -5, 5);
    double c = sym_int("c", -1000, 1000);
    auto r = mode == 0 && rs_h_choice("via3", 0, 1) ? [&] { auto q = rmath::resolv_cubic_equa(0, a, b, c); rmath::quad_equa_result o; o.count = q.count; for (int i = 0; i < 2 && i < q.count; i++) o.data[i] = q.data[i]; return o; }() : rmath::resolv_quad_equa(a, b, c);
    rs_h_observe("count", r.count);
    cl.add("at most two roots", r.count >= 0 && r.count <= 2);
    if (r.count < 0 || r.count > 2) { cl.settle("quad"); return; }
    for (int i = 0; i < r.count; i++) {
      double x = r.data[i];
      cl.add("a returned value is a root", near((a * x + b) * x + c, 0, 1e-6));
    }
    if (r.count == 2) cl.add("roots are different", !near(r.data[0], r.data[1], 1e-6));
    if (a != 0) {
      double k = b * b - 4 * a * c;
      cl.add("as many as there are", imp(gt(k, 0), B::of(r.count == 2)) & imp(eq(k, 0), B::of(r.count == 1)) & imp(lt(k, 0), B::of(r.count == 0)));
    } else
      cl.add("linear equation", b != 0 ? r.count == 1 : r.count == 0);
    cl.settle("quadratic");
    return;
  }
  // cubic: integer coefficients on a grid (or given by three integer roots), common scale symbolic
  long a3, a2, a1, a0;
  long W = deep ? 6 : 4;
  if (mode == 1) {
    a3 = rs_h_choice("a3", 1, deep ? 3 : 2);
    a2 = rs_h_choice("a2", -W, W); a1 = rs_h_choice("a1", -W, W); a0 = rs_h_choice("a0", -W, W);
  } else if (mode == 3) {  // three well separated roots of larger size
    static const long R[] = {-100, -37, -12, -5, 0, 2, 9, 19, 64, 100};
    long p = R[rs_h_choice("p", 0, 9)], q = R[rs_h_choice("q", 0, 9)], r = R[rs_h_choice("r", 0, 9)];
    if (p >= q || q >= r) return rs_h_abandon();
    a3 = 1; a2 = -(p + q + r); a1 = p * q + q * r + p * r; a0 = -p * q * r;
  } else {
    long p = rs_h_choice("p", -W, W), q = rs_h_choice("q", -W, W), r = rs_h_choice("r", -W, W);
    if (p > q || q > r) return rs_h_abandon();
    a3 = 1; a2 = -(p + q + r); a1 = p * q + q * r + p * r; a0 = -p * q * r;
  }
  double s = sym_int("s", 1, 1 << 20);
  bool neg = rs_h_choice("neg", 0, 1);
  if (neg) s = -s;
  auto r = rmath::resolv_cubic_equa(s * a3, s * a2, s * a1, s * a0);
  rs_h_observe("count", r.count);
  cl.add("at most three roots", r.count >= 1 && r.count <= 3);
  if (r.count < 1 || r.count > 3) { cl.settle("cubic"); return; }
  cl.add("as many as there are", r.count == distinct_roots(a3, a2, a1, a0));
  for (int i = 0; i < r.count; i++) {
    double x = r.data[i];
    double ax = x < 0 ? -x : x, m = ((a3 * ax + labs(a2)) * ax + labs(a1)) * ax + labs(a0) + 1;
    cl.add("a returned value is a root", near(((a3 * x + a2) * x + a1) * x + a0, 0, m * 1e-7));
    for (int j = 0; j < i; j++) cl.add("roots are different", !near(x, r.data[j], 1e-6));
  }
  // completeness: every sign change of the polynomial on a grid is covered by a returned root
  double lo = -200, prev = 0;
  for (int g = 0; g <= 800; g++) {
    double x = lo + g * 0.5, v = ((a3 * x + a2) * x + a1) * x + a0;
    if (g && ((prev < 0) != (v < 0)) && prev != 0 && v != 0) {
      B hit = B::of(false);
      for (int i = 0; i < r.count; i++) hit |= within(r.data[i], x - 0.5 - 1e-6, x + 1e-6);
      cl.add("no root is missing", hit);
    }
    prev = v;
  }
  cl.settle("cubic");
}
