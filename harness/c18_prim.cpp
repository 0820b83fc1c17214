// C18: vector, rectangle, line and projection primitives against their definitions.
#include "num.h"
extern "C" void harness(void) {
  Claims cl;
  long what = rs_h_choice("what", 0, 9);
  rs_h_observe("what", what);
  if (what == 0) {  // rectangles intersect iff they share a point - every finite double
    double v[8];
    const char *n[] = {"ax", "ay", "aX", "aY", "bx", "by", "bX", "bY"};
    for (int i = 0; i < 8; i++) { v[i] = rs_h_fp(n[i]); assume(std::isfinite(v[i])); }
    assume(le(v[0], v[2]) & le(v[1], v[3]) & le(v[4], v[6]) & le(v[5], v[7]));
    rmath::rect a(vec2(v[0], v[1]), vec2(v[2], v[3])), b(vec2(v[4], v[5]), vec2(v[6], v[7]));
    bool r = a.intersect(b);
    B want = le(v[0], v[6]) & le(v[4], v[2]) & le(v[1], v[7]) & le(v[5], v[3]);
    cl.add("rect::intersect", iff(B::of(r), want));
    bool r2 = b.intersect(a);
    cl.add("rect::intersect is symmetric", r == r2);
  } else if (what == 1) {  // bounding rectangle of points - every finite double
    double v[6];
    const char *n[] = {"px", "py", "qx", "qy", "rx", "ry"};
    for (int i = 0; i < 6; i++) { v[i] = rs_h_fp(n[i]); assume(std::isfinite(v[i])); }
    auto r = rmath::rect::from({vec2(v[0], v[1]), vec2(v[2], v[3]), vec2(v[4], v[5])});
    for (int i = 0; i < 3; i++) cl.add("contains", le(r.min.x, v[2 * i]) & le(v[2 * i], r.max.x) & le(r.min.y, v[2 * i + 1]) & le(v[2 * i + 1], r.max.y));
    cl.add("tight", (eq(r.min.x, v[0]) | eq(r.min.x, v[2]) | eq(r.min.x, v[4])) & (eq(r.max.x, v[0]) | eq(r.max.x, v[2]) | eq(r.max.x, v[4])) &
                    (eq(r.min.y, v[1]) | eq(r.min.y, v[3]) | eq(r.min.y, v[5])) & (eq(r.max.y, v[1]) | eq(r.max.y, v[3]) | eq(r.max.y, v[5])));
  } else {
    double x = sym_int("x", -1000, 1000), y = sym_int("y", -1000, 1000), u = sym_int("u", -1000, 1000), w = sym_int("w", -1000, 1000), k = sym_int("k", -100, 100);
    if (what == 2) {
      rmath::rect r(vec2(x, y), vec2(x + u, y + w)), i = r.inflated(k), c(vec2(x, y), k), p{vec2(x, y)};
      cl.add("width/height", eq(r.width(), u) & eq(r.height(), w));
      cl.add("center", eq(r.center().x * 2, x + x + u) & eq(r.center().y * 2, y + y + w));
      cl.add("inflated", eq(i.min.x, x - k) & eq(i.min.y, y - k) & eq(i.max.x, x + u + k) & eq(i.max.y, y + w + k));
      cl.add("point with offset", eq(c.min.x, x - k) & eq(c.max.x, x + k) & eq(c.min.y, y - k) & eq(c.max.y, y + k));
      cl.add("point rect", eq(p.min.x, x) & eq(p.max.x, x) & eq(p.min.y, y) & eq(p.max.y, y));
    } else if (what == 3) {
      vec2 a(x, y), b(u, w);
      vec2 s = a + b, d = a - b, n = -a, m = a * k, l = k * a, q = a / 4, e = a + k, f = a - k;
      cl.add("add/sub", eq(s.x, x + u) & eq(s.y, y + w) & eq(d.x, x - u) & eq(d.y, y - w));
      cl.add("scalar add/sub", eq(e.x, x + k) & eq(e.y, y + k) & eq(f.x, x - k) & eq(f.y, y - k));
      cl.add("neg/scale", eq(n.x, -x) & eq(n.y, -y) & eq(m.x, x * k) & eq(m.y, y * k) & eq(l.x, x * k) & eq(l.y, y * k) & eq(q.x * 4, x) & eq(q.y * 4, y));
      cl.add("dot/cross/dist2", eq(a.dot(b), x * u + y * w) & eq(a.cross(b), x * w - y * u) & eq(a.dist2(), x * x + y * y));
      cl.add("equality", iff(B::of(a == b), eq(x, u) & eq(y, w)));
      cl.add("inequality", iff(B::of(a != b), !(eq(x, u) & eq(y, w))));
    } else if (what == 4) {  // distance to an infinite line: d^2 * |AB|^2 == cross^2
      static const int L[][2] = {{4, 0}, {0, 2}, {3, 4}, {-1, 2}, {0, 0}, {2, 2}};
      int i = rs_h_choice("dir", 0, 5);
      double dx = L[i][0], dy = L[i][1];
      vec2 l0(u, w), l1(u + dx, w + dy), p(u + x, w + y);
      double d2 = rmath::dist2_point_line(p, l0, l1);
      double n2 = dx * dx + dy * dy, cr = dx * y - dy * x;
      if (n2 == 0) cl.add("degenerate line: distance to the point", near(d2, x * x + y * y, 1e-6));
      else cl.add("squared distance", near(d2 * n2, cr * cr, 1e-4));
    } else if (what == 5) {  // projection inside the segment
      static const int L[][2] = {{4, 0}, {0, -2}, {3, 4}, {-1, 2}, {0, 0}, {-8, -8}};
      int i = rs_h_choice("dir", 0, 5);
      double dx = L[i][0], dy = L[i][1];
      vec2 l0(u, w), l1(u + dx, w + dy), p(u + x, w + y);
      bool in = rmath::point_project_in_segment(p, l0, l1);
      double n2 = dx * dx + dy * dy, dt = dx * x + dy * y;
      if (n2 == 0) cl.add("degenerate segment", iff(B::of(in), eq(x, 0) & eq(y, 0)));
      else cl.add("foot of the perpendicular is on the segment", iff(B::of(in), within(dt, 0, n2)));
    } else if (what == 6) {  // general form of a line
      static const int L[][2] = {{4, 0}, {0, -2}, {3, 4}, {-1, 2}, {0, 0}, {-8, -8}};
      int i = rs_h_choice("dir", 0, 5);
      double dx = L[i][0], dy = L[i][1];
      rmath::line l{vec2(u, w), vec2(u + dx, w + dy)};
      double A = 77, Bc = 77, C = 77;
      l.general_from(&A, &Bc, &C);
      cl.add("both points satisfy the equation", eq(A * u + Bc * w + C, 0) & eq(A * (u + dx) + Bc * (w + dy) + C, 0));
      cl.add("the equation is not trivial", !(eq(A, 0) & eq(Bc, 0)));
      B off = !eq(dx * (y - w) - dy * (x - u), 0);
      if (i != 4) cl.add("no other point satisfies it", implies(off, !eq(A * x + Bc * y + C, 0)));
    } else if (what == 8) {  // rotation by a given angle, in place and copied
      static const double R[] = {0, rmath::pi / 2, rmath::pi, -rmath::pi / 2, 1, -2.5, 7, rmath::pi / 4};
      double rad = R[rs_h_choice("rad", 0, 7)], co = std::cos(rad), si = std::sin(rad);
      vec2 v(x, y), r = v.rotated(rad), o = v;
      vec2 &s = o.rotate(rad);
      cl.add("rotated", near(r.x, co * x - si * y, 1e-9) & near(r.y, si * x + co * y, 1e-9));
      cl.add("rotating leaves the vector it is asked of", eq(v.x, x) & eq(v.y, y));
      cl.add("rotate", eq(o.x, r.x) & eq(o.y, r.y) & B::of(&s == &o));
      vec2 z;
      rmath::rect e;
      cl.add("a new vector is zero", eq(z.x, 0) & eq(z.y, 0) & eq(e.min.x, 0) & eq(e.min.y, 0) & eq(e.max.x, 0) & eq(e.max.y, 0));
      vec2 q(k);
      cl.add("a vector from one number", eq(q.x, k) & eq(q.y, k));
    } else if (what == 9) {  // length and normalization
      static const int L[][2] = {{4, 0}, {0, -2}, {3, 4}, {-1, 2}, {1, 0}, {-8, -8}, {5, -12}};
      int i = rs_h_choice("dir", 0, 6);
      assume(le(1, k));
      vec2 v(L[i][0] * k, L[i][1] * k), n = v.normalization(), o = v;
      vec2 &s = o.normalizate();
      double l = v.dist(), h = std::sqrt(double(L[i][0] * L[i][0] + L[i][1] * L[i][1]));
      cl.add("length", near(l, h * k, 1e-6));
      cl.add("normalized", near(n.x * h, L[i][0], 1e-6) & near(n.y * h, L[i][1], 1e-6));
      cl.add("in place", eq(o.x, n.x) & eq(o.y, n.y) & B::of(&s == &o));
    } else {  // angle reduction
      double r = rs_h_dyadic("rad", -4096, 4096, 3);
      double c = rmath::clamp_0_2pi(r);
      const double tau = 2 * rmath::pi;
      cl.add("in [0,2pi)", le(0, c) & lt(c, tau + 1e-9));
      double z = (c - r);
      // the difference is a whole number of turns: find it by forking on the (few) candidates
      B ok = B::of(false);
      for (int k2 = -90; k2 <= 90; k2++) ok |= near(z, k2 * tau, 1e-6);
      cl.add("same angle", ok);
    }
  }
  cl.settle("primitive");
}
