// C13: get_boundary contains the curve and is tight.
#include "num.h"
extern "C" void harness(void) {
  long R = rs_h_tier() ? 6 : 3;
  bool inx = rs_h_choice("axis", 0, 1);
  double c1 = rs_h_choice("c1", -R, R), c2 = rs_h_choice("c2", -R, R);
  double c3 = rs_h_choice("c3", -R, R), off = sym_int("off", -100000, 100000), oth = sym_int("oth", -100000, 100000);
  double a[4] = {off, off + c1, off + c2, off + c3}, o[4] = {oth, oth + 2, oth + 3, oth + 4};  // the other axis is monotone
  rmath::bezier_cubic b;
  if (inx) b = {vec2(a[0], o[0]), vec2(a[1], o[1]), vec2(a[2], o[2]), vec2(a[3], o[3])};
  else b = {vec2(o[0], a[0]), vec2(o[1], a[1]), vec2(o[2], a[2]), vec2(o[3], a[3])};
  auto r = b.get_boundary();
  double mn = inx ? r.min.x : r.min.y, mx = inx ? r.max.x : r.max.y, omn = inx ? r.min.y : r.min.x, omx = inx ? r.max.y : r.max.x;
  Claims cl;
  cl.add("monotone axis", near(omn, oth, 1e-9) & near(omx, oth + 4, 1e-9));
  const int G = 32;
  B lo = B::of(false), hi = B::of(false);
  for (int g = 0; g <= G; g++) {
    double v = bern(0, c1, c2, c3, g / (double)G) + off;
    cl.add("contains the curve", within(v, mn - 1e-6, mx + 1e-6));
    lo |= le(v - mn, 0.06);
    hi |= le(mx - v, 0.06);
  }
  cl.add("tight below", lo);
  cl.add("tight above", hi);
  rs_h_observe("ok", 1);
  cl.settle("boundary");
}
