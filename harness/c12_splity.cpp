// C12: split_y returns, in ascending order, exactly the parameters where the curve turns in y.
#include "num.h"
extern "C" void harness(void) {
  long R = rs_h_tier() ? 6 : 4;
  double y0 = 0, y1 = rs_h_choice("y1", -R, R), y2 = rs_h_choice("y2", -R, R);
  double y3 = sym_int("y3", -8, 8), off = sym_int("off", -1000, 1000);
  double x0 = sym_int("x0", -1000, 1000);
  rmath::bezier_cubic b{vec2(x0, off), vec2(3, off + y1), vec2(x0 + 5, off + y2), vec2(7, off + y3)};
  double t[2] = {-5, -5};
  int n = b.split_y(&t[0], &t[1]);
  rs_h_observe("n", n);
  Claims cl;
  cl.add("at most two parameters", n >= 0 && n <= 2);
  if (n < 0 || n > 2) { cl.settle("count"); return; }
  if (n == 2) cl.add("ascending", lt(t[0], t[1]));
  for (int i = 0; i < n; i++) {
    cl.add("strictly inside", lt(0, t[i]) & lt(t[i], 1));
    cl.add("the y derivative vanishes", near(dbern(y0, y1, y2, y3, t[i]), 0, 1e-6));
  }
  // a sign change of the derivative between neighbouring grid points needs a parameter there
  const int G = 16;
  for (int g = 0; g < G; g++) {
    double u = (g + 0.25) / G, v = g + 1 < G ? (g + 1.25) / G : 1;
    if (g == 0) u = 0;
    double du = dbern(y0, y1, y2, y3, u), dv = dbern(y0, y1, y2, y3, v);
    B turn = (lt(du, 0) & gt(dv, 0)) | (gt(du, 0) & lt(dv, 0));
    B found = B::of(false);
    for (int i = 0; i < n; i++) found |= le(u - 1e-9, t[i]) & le(t[i], v + 1e-9);
    cl.add("every turning point is reported", implies(turn, found));
  }
  cl.settle("split_y");
}
