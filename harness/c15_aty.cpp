// C15: point_at_y finds exactly the parameters where the curve has that height.
#include "num.h"
extern "C" void harness(void) {
  bool deep = rs_h_tier();
  long mode = rs_h_choice("mode", 0, 2);
  double y0 = sym_int("y0", -(1 << 16), 1 << 16);
  double c1, c2, c3, h;  // heights of the other control points and of the query, relative to the first
  if (mode == 0) {       // straight in y: everything symbolic
    double d = sym_int("d", 1, 64);
    if (rs_h_choice("down", 0, 1)) d = -d;
    c1 = d; c2 = 2 * d; c3 = 3 * d;
    h = sym_int("h", -300, 300);
  } else if (mode == 1) {  // parabola in y: query height symbolic
    long b = rs_h_choice("b", -4, 4), e = rs_h_choice("e", -6, 6);
    c1 = b; c2 = e; c3 = 3 * e - 3 * b;  // third difference zero
    h = sym_int("h", -40, 40);
  } else {
    long W = deep ? 5 : 3;
    c1 = rs_h_choice("c1", -W, W); c2 = rs_h_choice("c2", -W, W); c3 = rs_h_choice("c3", -W, W);
    h = rs_h_choice("h", -2 * W, 2 * W) / 2.0;
  }
  rmath::bezier_cubic b{vec2(3, y0), vec2(5, y0 + c1), vec2(-2, y0 + c2), vec2(7, y0 + c3)};
  auto r = b.point_at_y(y0 + h);
  rs_h_observe("count", r.count);
  Claims cl;
  cl.add("at most three", r.count >= 0 && r.count <= 3);
  if (r.count < 0 || r.count > 3) { cl.settle("count"); return; }
  for (int i = 0; i < r.count; i++) {
    cl.add("parameter in [0,1]", within(r.t[i], 0, 1));
    cl.add("the curve has that height there", near(bern(0, c1, c2, c3, r.t[i]), h, 1e-5));
    for (int j = 0; j < i; j++) cl.add("different parameters", !near(r.t[i], r.t[j], 1e-7));
  }
  if (mode == 0) {
    double u = h, d3 = c3;
    B in = (within(u, 0, d3)) | (within(u, d3, 0));
    cl.add("found iff the height is in range", iff(in, B::of(r.count == 1)));
  } else {
    // every sign change of y(t) - h on a grid of the curve is matched by a returned parameter
    const int G = mode == 1 ? 8 : 32;
    B any = B::of(false);
    for (int g = 0; g < G; g++) {
      double ta = g / (double)G, tb = (g + 1) / (double)G;
      double va = bern(0, c1, c2, c3, ta) - h, vb = bern(0, c1, c2, c3, tb) - h;
      B change = (lt(va, -1e-6) & gt(vb, 1e-6)) | (gt(va, 1e-6) & lt(vb, -1e-6));
      B hit = B::of(false);
      for (int i = 0; i < r.count; i++) hit |= within(r.t[i], ta - 1e-6, tb + 1e-6);
      cl.add("no crossing is missing", imp(change, hit));
    }
  }
  cl.settle("point_at_y");
}
