// C19: circle() yields a closed counter-clockwise chain of four quarter arcs within 0.03% of the radius.
#include "num.h"
extern "C" void harness(void) {
  double cx = sym_int("cx", -10000, 10000), cy = sym_int("cy", -10000, 10000), r = sym_int("r", 1, 1000);
  rmath::bezier_cubic o[5];
  for (auto &e : o) e = {vec2(1, 2), vec2(3, 4), vec2(5, 6), vec2(7, 8)};
  rmath::bezier_cubic::circle(vec2(cx, cy), r, o);
  Claims cl;
  static const int DX[] = {1, 0, -1, 0}, DY[] = {0, 1, 0, -1};
  for (int i = 0; i < 4; i++) {
    auto &b = o[i], &n = o[(i + 1) % 4];
    cl.add("starts on the axis", eq(b.p0.x, cx + r * DX[i]) & eq(b.p0.y, cy + r * DY[i]));
    cl.add("chained and closed", eq(b.p3.x, n.p0.x) & eq(b.p3.y, n.p0.y));
    for (int g = 0; g <= 16; g++) {
      double t = g / 16.0;
      double x = bern(b.p0.x, b.p1.x, b.p2.x, b.p3.x, t) - cx, y = bern(b.p0.y, b.p1.y, b.p2.y, b.p3.y, t) - cy;
      double d2 = x * x + y * y;
      cl.add("on the circle", within(d2, r * r * 0.9994, r * r * 1.0006));
      double tx = dbern(b.p0.x, b.p1.x, b.p2.x, b.p3.x, t), ty = dbern(b.p0.y, b.p1.y, b.p2.y, b.p3.y, t);
      cl.add("runs counter-clockwise", gt(x * ty - y * tx, 0));
    }
  }
  cl.add("writes exactly four pieces", o[4].p0 == vec2(1, 2) && o[4].p3 == vec2(7, 8));
  rs_h_observe("ok", 1);
  cl.settle("circle");
}
