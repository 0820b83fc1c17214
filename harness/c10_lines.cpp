// C10: segment/segment intersection is sound and complete.
#include "num.h"
#ifndef DIRS
#define DIRS 0
#endif
extern "C" void harness(void) {
  // directions are forked, positions symbolic: every orientation/incidence test is linear
  static const int D0[][2] = {{8, 0}, {0, 8}, {8, 8}, {8, -8}, {4, 8}, {-8, 4}, {0, -4}, {-4, 0}};
  static const int D1[][2] = {{1, 0}, {2, 0}, {3, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 1}, {1, 2}, {1, 3}, {2, 1}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {-1, 0}, {0, -2}, {-1, 1}, {-1, 3}, {-3, 2}, {-2, -1}, {3, -2}, {-3, -3}, {1, -3}, {7, 5}, {-5, 6}};
  const int(*D)[2] = DIRS ? D1 : D0;
  int nd = DIRS ? sizeof D1 / sizeof *D1 : sizeof D0 / sizeof *D0;
  int i = rs_h_choice("d0", 0, nd - 1), j = rs_h_choice("d1", 0, nd - 1);
  double ax = D[i][0], ay = D[i][1], bx = D[j][0], by = D[j][1];
  double ox = sym_int("ox", -(1 << 20), 1 << 20), oy = sym_int("oy", -(1 << 20), 1 << 20);
  double x = sym_int("x", -20, 20), y = sym_int("y", -20, 20);
  vec2 p0(ox, oy), p1(ox + ax, oy + ay), p2(ox + x, oy + y), p3(ox + x + bx, oy + y + by);
  auto r = rmath::intersect(p0, p1, p2, p3);
  rs_h_observe("count", r.count);
  double det = ax * by - ay * bx;
  Claims cl;
  cl.add("at most two intersections", r.count >= 0 && r.count <= 2);
  if (r.count < 0 || r.count > 2) { cl.settle("count"); return; }
  const double eps = 1e-9;
  for (int k = 0; k < r.count; k++) {
    auto &d = r.data[k];
    cl.add("parameters are in [0,1]", within(d.t0, -eps, 1 + eps) & within(d.t1, -eps, 1 + eps));
    cl.add("the point is on the first segment at t0", near(d.p.x, p0.x + ax * d.t0, eps) & near(d.p.y, p0.y + ay * d.t0, eps));
    cl.add("the point is on the second segment at t1", near(d.p.x, p2.x + bx * d.t1, eps) & near(d.p.y, p2.y + by * d.t1, eps));
  }
  if (det != 0) {
    // cross iff both parameters, computed from the definition, are in [0,1]
    double n0 = x * by - y * bx, n1 = x * ay - y * ax, s = det > 0 ? 1 : -1;
    n0 = n0 * s; n1 = n1 * s;
    double ad = det * s;
    B hit = within(n0, 0, ad) & within(n1, 0, ad);
    bool pow2 = ad == 1 || ad == 2 || ad == 4 || ad == 8 || ad == 16 || ad == 32 || ad == 64 || ad == 128;
    if (pow2) cl.add("reported iff the segments meet", iff(hit, B::of(r.count == 1)));
    else {
      // the division rounds: touching exactly at an endpoint may go either way
      B inner = within(n0, 1, ad - 1) & within(n1, 1, ad - 1);
      cl.add("crossing segments are reported", implies(inner, B::of(r.count == 1)));
      cl.add("segments that do not meet are not reported", implies(!hit, B::of(r.count == 0)));
    }
    cl.add("one point for crossing lines", r.count <= 1);
  } else {
    // parallel: every endpoint inside the other segment and not shared must be reported, nothing else
    bool horiz = ay == 0;
    double len = horiz ? ax : ay, u0 = horiz ? x : y, u1 = u0 + (horiz ? bx : by);
    double s = len > 0 ? 1 : -1;
    len = len * s; u0 = u0 * s; u1 = u1 * s;   // first segment is [0,len], second [u0,u1] (either order)
    B col = eq(x * ay, y * ax);
    double up = (horiz ? bx : by) * s;
    double lo = up > 0 ? u0 : u1, hi = up > 0 ? u1 : u0;
    B e0 = lt(lo, 0) & lt(0, hi), e1 = lt(lo, len) & lt(len, hi), f0 = lt(0, u0) & lt(u0, len), f1 = lt(0, u1) & lt(u1, len);
    double want = num(col & e0) + num(col & e1) + num(col & f0) + num(col & f1);
    cl.add("overlap endpoints are reported, each once", eq(want, r.count));
    if (r.count == 2) cl.add("two different points", !(near(r.data[0].p.x, r.data[1].p.x, 1e-6) & near(r.data[0].p.y, r.data[1].p.y, 1e-6)));
  }
  cl.settle("segment intersection");
}
