// Clipping shapes with curved sides. The curved sides are cubics whose y is linear in the
// parameter (so "which x does the side have at height y" is a polynomial), the other
// operand is a polygon at a symbolic position.
#include "shapes.h"
#ifndef SYMX
#define SYMX 0
#endif
// a curved side: from (x0,y0) up or down to (x3,y3), x control values given, y linear
struct Side { double x[4], y0, y3; };
struct Piece { P2 p[4]; bool curve; };
struct CReader { std::vector<Piece> pc; P2 last{0, 0}, start{0, 0}; bool open = false; B chained = B::of(true); int contours = 0; };
static void cr_close(CReader *r) {
  if (!r->open) return;
  r->chained &= eq(r->last.x, r->start.x) & eq(r->last.y, r->start.y);
}
static void cr_move(path_moveto_func_para) { auto r = (CReader *)user; (void)from; cr_close(r); r->open = true; r->contours++; r->last = r->start = {to.x, to.y}; }
static void cr_line(path_lineto_func_para) {
  auto r = (CReader *)user;
  r->chained &= eq(from.x, r->last.x) & eq(from.y, r->last.y);
  r->pc.push_back({{{from.x, from.y}, {from.x, from.y}, {to.x, to.y}, {to.x, to.y}}, false});
  r->last = {to.x, to.y};
}
static void cr_cubic(path_cubicto_func_para) {
  auto r = (CReader *)user;
  r->chained &= eq(from.x, r->last.x) & eq(from.y, r->last.y);
  r->pc.push_back({{{from.x, from.y}, {ctrl1.x, ctrl1.y}, {ctrl2.x, ctrl2.y}, {to.x, to.y}}, true});
  r->last = {to.x, to.y};
}
static double blossom(const double *x, double a, double b, double c) {
  auto l = [](double p, double q, double t) { return p + (q - p) * t; };
  double u0 = l(x[0], x[1], a), u1 = l(x[1], x[2], a), u2 = l(x[2], x[3], a);
  double v0 = l(u0, u1, b), v1 = l(u1, u2, b);
  return l(v0, v1, c);
}
static B near_(double a, double b, double e) { return le(a - b, e) & le(b - a, e); }
extern "C" void harness(void) {
  // subject: two sides between (.,0) and (.,12), at x = 0 straight and curved at the right; or a lens
  static const Side RS[] = {
    {{0, 8, 8, 0}, 0, 12},      // bulge
    {{6, 2, 2, 6}, 0, 12},      // dent
    {{4, 12, -4, 4}, 0, 12},    // S
  };
  int k = rs_h_choice("side", 0, 2), w = rs_h_choice("width", 0, 1);
  bool rv = rs_h_choice("rev", 0, 1), swap = !rv;
  double dx, dy;
  if (SYMX) { dx = rs_h_dyadic("dx", -9 * 2, 9 * 2, 1); dy = rs_h_choice("dy", -4, 4) * 3 + 0.5; }
  else { dx = (rs_h_tier() ? rs_h_choice("dx", -5, 4) : rs_h_choice("dx", -2, 2) * 2) * 2 + 0.5; dy = rs_h_dyadic("dy", -14 * 2, 14 * 2, 1); }
  const Side &sd = RS[k];
  double W = w ? 16 : 4, H = w ? 4 : 8;
  Shape rect = place({rectp(0, 0, W, H)}, 1, dx, dy, rv);
  river::paths subj(1);
  river::path &p = subj[0];
  p.moveto(-8, 0);
  p.lineto(sd.x[0], 0);
  p.cubicto(river::point(sd.x[1], 4), river::point(sd.x[2], 8), river::point(sd.x[3], 12));
  p.lineto(-8, 12);
  double qx = rs_h_dyadic("qx", -20 * 8, 20 * 8, 3) + 1.0 / 32;
  Claims cl;
  const double m = 1e-3, e = 1e-6;
  for (int o = 0; o < 4; o++) {
    river::processor pr;
    pr.add_path(subj, swap ? river::path_type::clip : river::path_type::subject);
    pr.add_path(to_paths(rect), swap ? river::path_type::subject : river::path_type::clip);
    river::paths out;
    pr.process(OPS[o], FILLS[rv ? 0 : 1], out);
    CReader r;
    river::path_traverse_funcs f;
    f.move_to = cr_move; f.line_to = cr_line; f.cubic_to = cr_cubic;
    for (auto &x : out) x.traverse(f, &r);
    cr_close(&r);
    rs_h_observe("n", r.pc.size());
    std::string n = std::string(OPN[o]) + ": ";
    cl.add((n + "chained and closed").c_str(), r.chained);
    for (auto &c : r.pc) {
      P2 a = c.p[0], b = c.p[3];
      if (c.curve) {
        double t0 = a.y / 12, t1 = b.y / 12;
        cl.add((n + "a curve piece is a piece of the input curve").c_str(),
               near_(c.p[0].x, blossom(sd.x, t0, t0, t0), e) & near_(c.p[1].x, blossom(sd.x, t0, t0, t1), e) &
               near_(c.p[2].x, blossom(sd.x, t0, t1, t1), e) & near_(c.p[3].x, blossom(sd.x, t1, t1, t1), e) &
               near_(c.p[1].y, a.y + (b.y - a.y) / 3, e) & near_(c.p[2].y, a.y + (b.y - a.y) / 3 * 2, e));
      } else cl.add((n + "a straight piece is horizontal or vertical, like the input's").c_str(), near_(a.x, b.x, e) | near_(a.y, b.y, e));
      cl.settle("curve clipping: pieces");
    }
    for (int i = 0; i <= 6; i++) {
      double qy = i * 2.125 - 0.40625, qt = qy / 12, X = blossom(sd.x, qt, qt, qt);
      B in_s = qy > 0 && qy < 12 ? (gt(qx, -8) & lt(qx, X)) : B::of(false);
      B clear = !near_(qx, X, m) & !near_(qy, dy, m) & !near_(qy, dy + H, m) & !near_(qx, dx, m) & !near_(qx, dx + W, m);
      B in_c = gt(qx, dx) & lt(qx, dx + W) & gt(qy, dy) & lt(qy, dy + H);
      B odd = B::of(false);
      for (auto &c : r.pc) {
        P2 a = c.p[0], b = c.p[3];
        B spans = (le(a.y, qy) & gt(b.y, qy)) | (le(b.y, qy) & gt(a.y, qy));
        odd ^= spans & (c.curve ? lt(qx, X) : lt(qx, a.x));
      }
      cl.add((n + "region").c_str(), imp(clear, iff(swap ? combine(in_c, in_s, OPS[o]) : combine(in_s, in_c, OPS[o]), odd)));
    }
    cl.settle("curve clipping: region");
  }
  cl.settle("curve clipping");
}
