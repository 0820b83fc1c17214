// C17: intersecting two cubics reports the crossings, and only points the curves share.
#include "num.h"
#ifndef PRECISE
#define PRECISE 3
#endif
static const double SH[][8] = {
  {0, 0, 2, 6, 6, -6, 8, 0},     // S
  {0, 0, 0, 8, 8, 8, 8, 0},      // arch
  {0, 0, 8, 2, 0, 6, 8, 8},      // wiggle
  {0, 8, 3, 5, 5, 3, 8, 1},      // nearly straight, falling
  {4, -2, 4, 2, 5, 6, 4, 9},     // nearly vertical
  {0, 3, 12, 3, -4, 3.5, 8, 4},  // overshooting
};
static bool seg_cross(const double *a, const double *b, const double *c, const double *d) {
  auto o = [](const double *p, const double *q, const double *r) { return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]); };
  double o1 = o(a, b, c), o2 = o(a, b, d), o3 = o(c, d, a), o4 = o(c, d, b);
  const double m = 1e-4;
  return ((o1 > m && o2 < -m) || (o1 < -m && o2 > m)) && ((o3 > m && o4 < -m) || (o3 < -m && o4 > m));
}
extern "C" void harness(void) {
  bool deep = rs_h_tier();
  Claims cl;
  const int NS = sizeof SH / sizeof *SH;
  long mode = rs_h_choice("mode", 0, 1);
  double ox = sym_int("ox", -(1 << 12), 1 << 12), oy = sym_int("oy", -(1 << 12), 1 << 12);
  if (mode == 0) {  // default precision, shapes on a grid, common translation symbolic
    int a = rs_h_choice("a", 0, NS - 1), b = rs_h_choice("b", 0, NS - 1);
    double dx = rs_h_choice("dx", deep ? -6 : -2, deep ? 6 : 2) * (deep ? 0.75 : 1.75) + 0.15625, dy = rs_h_choice("dy", deep ? -6 : -2, deep ? 6 : 2) * (deep ? 0.75 : 1.75) + 0.28125;
    bool rev = rs_h_choice("rev", 0, 1);
    double A[8], C[8];
    for (int i = 0; i < 4; i++) {
      A[2 * i] = SH[a][2 * i]; A[2 * i + 1] = SH[a][2 * i + 1];
      int j = rev ? 3 - i : i;
      C[2 * i] = SH[b][2 * j] + dx; C[2 * i + 1] = SH[b][2 * j + 1] + dy;
    }
    auto mk = [&](double *v) { return rmath::bezier_cubic{vec2(ox + v[0], oy + v[1]), vec2(ox + v[2], oy + v[3]), vec2(ox + v[4], oy + v[5]), vec2(ox + v[6], oy + v[7])}; };
    auto r = rmath::intersect(mk(A), mk(C));
    rs_h_observe("count", r.count);
    cl.add("at most nine", r.count >= 0 && r.count <= 9);
    if (r.count < 0 || r.count > 9) { cl.settle("count"); return; }
    auto at = [](double *v, double t, double *o) { o[0] = bern(v[0], v[2], v[4], v[6], t); o[1] = bern(v[1], v[3], v[5], v[7], t); };
    for (int i = 0; i < r.count; i++) {
      double t0 = r.data[i].t0, t1 = r.data[i].t1, p[2], q[2];
      cl.add("parameters in [0,1]", within(t0, 0, 1) & within(t1, 0, 1));
      at(A, t0, p); at(C, t1, q);
      cl.add("the two curves are at the same place there", near(p[0], q[0], 1e-4) & near(p[1], q[1], 1e-4));
      cl.add("the point is on the first curve", near(r.data[i].p.x, p[0] + ox, 1e-6) & near(r.data[i].p.y, p[1] + oy, 1e-6));
    }
    const int G = 24;
    static double P[G + 1][2], Q[G + 1][2];
    for (int g = 0; g <= G; g++) { at(A, g / (double)G, P[g]); at(C, g / (double)G, Q[g]); }
    if (r.count < 9)
      for (int g = 0; g < G; g++)
        for (int h = 0; h < G; h++)
          if (seg_cross(P[g], P[g + 1], Q[h], Q[h + 1])) {
            B hit = B::of(false);
            for (int i = 0; i < r.count; i++) hit |= within(r.data[i].t0, (g - 1.) / G, (g + 2.) / G) & within(r.data[i].t1, (h - 1.) / G, (h + 2.) / G);
            cl.add("no crossing is missing", hit);
          }
    cl.settle("cubic/cubic");
    return;
  }
  // low precision, straight curves, relative position symbolic
  long k = rs_h_choice("kind", 0, 1);
  double x = rs_h_dyadic("x", -64, 64, 3), y = rs_h_dyadic("y", -64, 64, 3);
  rmath::bezier_cubic a{vec2(ox, oy), vec2(ox + 2, oy), vec2(ox + 4, oy), vec2(ox + 6, oy)};
  double vx = k ? 6 : 0, vy = 6;
  rmath::bezier_cubic b{vec2(ox + x, oy + y), vec2(ox + x + vx / 3, oy + y + vy / 3), vec2(ox + x + vx / 3 * 2, oy + y + vy / 3 * 2), vec2(ox + x + vx, oy + y + vy)};
  auto r = rmath::intersect(a, b, PRECISE);
  rs_h_observe("count", r.count);
  cl.add("at most nine", r.count >= 0 && r.count <= 9);
  if (r.count < 0 || r.count > 9) { cl.settle("count"); return; }
  // exact: t1 = -y/6, t0 = (x + vx*t1)/6
  double t1 = -y / 6, t0 = (x + vx * t1) / 6, w = 2.0 / (1 << PRECISE);
  B hit = B::of(false), meet = within(t1, 0, 1) & within(t0, 0, 1);
  for (int i = 0; i < r.count; i++) {
    hit |= near(r.data[i].t0, t0, w) & near(r.data[i].t1, t1, w);
    cl.add("reported where the curves meet", near(r.data[i].t0, t0, 2 * w) & near(r.data[i].t1, t1, 2 * w));
    cl.add("parameters in [0,1]", within(r.data[i].t0, 0, 1) & within(r.data[i].t1, 0, 1));
  }
  if (r.count < 9) cl.add("the crossing is reported", imp(meet, hit));
  cl.settle("straight cubics");
}
