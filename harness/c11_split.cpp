// C11: point_at evaluates the curve and split() reparametrises it without changing it.
#include "num.h"
extern "C" void harness(void) {
  const char *nx[] = {"x0", "x1", "x2", "x3"}, *ny[] = {"y0", "y1", "y2", "y3"};
  double x[4], y[4];
  for (int i = 0; i < 4; i++) x[i] = sym_int(nx[i], -1000, 1000), y[i] = sym_int(ny[i], -1000, 1000);
  rmath::bezier_cubic b{vec2(x[0], y[0]), vec2(x[1], y[1]), vec2(x[2], y[2]), vec2(x[3], y[3])};
  const double eps = 1e-6;
  Claims cl;
  long what = rs_h_choice("what", 0, 2);
  if (what == 0) {
    double t = rs_h_dyadic("t", 0, 64, 6);
    vec2 p = b.point_at(t);
    cl.add("point_at is the Bernstein form", near(p.x, bern(x[0], x[1], x[2], x[3], t), eps) & near(p.y, bern(y[0], y[1], y[2], y[3], t), eps));
  } else if (what == 1) {
    double t = rs_h_dyadic("t", 0, 64, 6), s = rs_h_dyadic("s", 0, 16, 4);
    rmath::bezier_cubic l, r;
    b.split(t, &l, &r);
    double u = t * s, v = t + (1 - t) * s;
    cl.add("first part", near(bern(l.p0.x, l.p1.x, l.p2.x, l.p3.x, s), bern(x[0], x[1], x[2], x[3], u), eps) & near(bern(l.p0.y, l.p1.y, l.p2.y, l.p3.y, s), bern(y[0], y[1], y[2], y[3], u), eps));
    cl.add("second part", near(bern(r.p0.x, r.p1.x, r.p2.x, r.p3.x, s), bern(x[0], x[1], x[2], x[3], v), eps) & near(bern(r.p0.y, r.p1.y, r.p2.y, r.p3.y, s), bern(y[0], y[1], y[2], y[3], v), eps));
    cl.add("parts join", eq(l.p3.x, r.p0.x) & eq(l.p3.y, r.p0.y));
    cl.add("ends kept", eq(l.p0.x, x[0]) & eq(l.p0.y, y[0]) & eq(r.p3.x, x[3]) & eq(r.p3.y, y[3]));
  } else {
    int n = rs_h_choice("n", 0, rs_h_tier() ? 3 : 2);
    double t[3];
    int last = 0;
    for (int i = 0; i < n; i++) {
      char nm[8];
      snprintf(nm, 8, "k%d", i);
      last = rs_h_choice(nm, last + 1, 8 - n + i);
      t[i] = last / 8.0;
    }
    rmath::bezier_cubic o[5], canary{vec2(11, 12), vec2(13, 14), vec2(15, 16), vec2(17, 18)};
    for (auto &e : o) e = canary;
    b.split(t, o, n);
    double s = rs_h_dyadic("s", 0, 16, 4);
    if (n) for (int i = 0; i <= n; i++) {
      double a = i ? t[i - 1] : 0, e = i < n ? t[i] : 1, u = a + (e - a) * s;
      auto &l = o[i];
      cl.add("piece", near(bern(l.p0.x, l.p1.x, l.p2.x, l.p3.x, s), bern(x[0], x[1], x[2], x[3], u), eps) & near(bern(l.p0.y, l.p1.y, l.p2.y, l.p3.y, s), bern(y[0], y[1], y[2], y[3], u), eps));
    }
    for (int i = n + 1; i < 5; i++) cl.add("nothing written past the last piece", o[i].p0 == canary.p0 && o[i].p3 == canary.p3);
  }
  rs_h_observe("what", what);
  cl.settle("split");
}
