// C16: intersecting a segment with a cubic reports exactly the common points.
#include "num.h"
static void run(const rmath::line &l, const rmath::bezier_cubic &c, Claims &cl, rmath::line_cubic_intersect_result &r) {
  r = rmath::intersect(l, c);
  rs_h_observe("count", r.count);
  cl.add("at most three", r.count >= 0 && r.count <= 3);
}
extern "C" void harness(void) {
  bool deep = rs_h_tier();
  long mode = rs_h_choice("mode", 0, 2);
  double ox = sym_int("ox", -(1 << 12), 1 << 12), oy = sym_int("oy", -(1 << 12), 1 << 12);
  static const int DIR[][2] = {{1, 0}, {0, 1}, {1, 1}, {1, -1}, {-1, 0}, {0, -1}};
  int k = rs_h_choice("dir", 0, mode == 0 ? 5 : mode == 1 ? 1 : 3);
  double dx = DIR[k][0], dy = DIR[k][1];
  // curve coordinates: n along the normal of the segment, s along the segment
  double n[4], s[4], at = 0, lo, hi;
  if (mode == 0) {         // crosses the segment's line once, straight in the normal direction
    double h = sym_int("h", 1, 16), off = sym_int("off", -60, 60);
    for (int i = 0; i < 4; i++) n[i] = off + i * h;
    long b = rs_h_choice("b", -4, 4);
    for (int i = 0; i < 4; i++) s[i] = b * i;
    lo = sym_int("lo", -20, 20);
    hi = lo + 16;
  } else if (mode == 1) {  // parabola over the segment, distance symbolic
    long b = rs_h_choice("b", 0, 3);
    double off = sym_int("off", -16, 16);
    n[0] = off; n[1] = off + b; n[2] = off + b; n[3] = off;
    for (int i = 0; i < 4; i++) s[i] = 2 * i;
    lo = sym_int("lo", -10, 10);
    hi = lo + rs_h_choice("len", 1, 3) * 4;
  } else {                 // any shape on a small grid, segment ends symbolic
    long W = deep ? 4 : 2;
    double off = rs_h_choice("off", -W, W) / 2.0;
    n[0] = off; n[1] = off + rs_h_choice("n1", -W, W); n[2] = off + rs_h_choice("n2", -W, W); n[3] = off + rs_h_choice("n3", -W, W);
    long sv = rs_h_choice("sv", 0, 2);
    static const double S[][4] = {{0, 1, 2, 3}, {0, 4, -2, 2}, {2, 2, 1, 0}};
    for (int i = 0; i < 4; i++) s[i] = S[sv][i];
    lo = sym_int("lo", -8, 8);
    hi = lo + 4;
  }
  // (s,n) -> plane: along (dx,dy), normal (-dy,dx)
  auto P = [&](double a, double b) { return vec2(ox + a * dx - b * dy, oy + a * dy + b * dx); };
  rmath::line l{P(lo, at), P(hi, at)};
  rmath::bezier_cubic c{P(s[0], n[0]), P(s[1], n[1]), P(s[2], n[2]), P(s[3], n[3])};
  Claims cl;
  rmath::line_cubic_intersect_result r;
  run(l, c, cl, r);
  if (r.count < 0 || r.count > 3) { cl.settle("count"); return; }
  const double eps = 1e-4;
  double len = hi - lo;
  for (int i = 0; i < r.count; i++) {
    double t0 = r.data[i].t0, t1 = r.data[i].t1;
    cl.add("parameters in [0,1]", within(t0, -1e-9, 1 + 1e-9) & within(t1, 0, 1));
    double sa = bern(s[0], s[1], s[2], s[3], t1), na = bern(n[0], n[1], n[2], n[3], t1);
    cl.add("the curve is on the segment there", near(na, 0, eps));
    cl.add("segment and curve parameter agree", near(sa, lo + len * t0, eps));
    vec2 q = P(sa, na);
    cl.add("the point is the curve's point", near(r.data[i].p.x, q.x, eps) & near(r.data[i].p.y, q.y, eps));
    for (int j = 0; j < i; j++) cl.add("different points of the curve", !near(t1, r.data[j].t1, 1e-7));
  }
  const int G = mode == 2 ? 32 : 8;
  if (mode == 0) {
    // one crossing of the line at t = -off/(3h), if in [0,1]; it counts iff it lies on the segment
    double n0 = n[0], n3 = n[3], d = n3 - n0;  // d > 0
    B cross = le(n0, 0) & ge(n3, 0);
    double num_s = s[3] * (-n0);               // s at crossing, times d
    B on = le(lo * d, num_s) & le(num_s, hi * d), inner = lt(lo * d, num_s) & lt(num_s, hi * d);
    cl.add("reported only if they meet", imp(B::of(r.count > 0), cross & on));
    cl.add("reported if they meet", imp(cross & inner, B::of(r.count == 1)));
  } else {
    for (int g = 0; g < G; g++) {
      double ta = g / (double)G, tb = (g + 1) / (double)G;
      double na = bern(n[0], n[1], n[2], n[3], ta), nb = bern(n[0], n[1], n[2], n[3], tb);
      B change = (lt(na, -1e-3) & gt(nb, 1e-3)) | (gt(na, 1e-3) & lt(nb, -1e-3));
      // the piece of curve lies within this span along the segment (control polygon bound on a short piece)
      double sa = bern(s[0], s[1], s[2], s[3], ta), sb = bern(s[0], s[1], s[2], s[3], tb), w = 0.5;
      B inside = gt(sa, lo + w) & gt(sb, lo + w) & lt(sa, hi - w) & lt(sb, hi - w);
      B hit = B::of(false);
      for (int i = 0; i < r.count; i++) hit |= within(r.data[i].t1, ta - 1e-6, tb + 1e-6);
      cl.add("no crossing is missing", imp(change & inside, hit));
    }
  }
  cl.settle("line/cubic");
}
