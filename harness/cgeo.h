// Oracle for shapes bounded by arbitrary cubics: crossings of a horizontal line with every
// piece, found by bisection between the turning points; nothing of the code under test is used.
#pragma once
#include "shapes.h"
#include <algorithm>
#include <cmath>
struct Seg { P2 p[4]; bool curve; };
typedef std::vector<std::vector<Seg>> CShape;
static Seg L(double x0, double y0, double x1, double y1) { return {{{x0, y0}, {x0 + (x1 - x0) / 3, y0 + (y1 - y0) / 3}, {x0 + (x1 - x0) / 3 * 2, y0 + (y1 - y0) / 3 * 2}, {x1, y1}}, false}; }
static Seg C(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3) { return {{{x0, y0}, {x1, y1}, {x2, y2}, {x3, y3}}, true}; }
static const CShape &shape(int k) {
  const double r = 6, h = r * 0.5522847498;
  static const CShape S[] = {
    {{C(r, 0, r, h, h, r, 0, r), C(0, r, -h, r, -r, h, -r, 0), C(-r, 0, -r, -h, -h, -r, 0, -r), C(0, -r, h, -r, r, -h, r, 0)}},  // circle
    {{C(0, 0, 3, 8, 8, 7, 11, 1), C(11, 1, 8, -7, 2, -6, 0, 0)}},                                                              // lens, both sides turn
    {{L(-7, -6, 6, -5), C(6, -5, 2, 9, 14, -9, 7, 8), L(7, 8, -6, 6), L(-6, 6, -7, -6)}},                                                        // an S with two turns
    {{L(-5, -5, 6, -5), C(6, -5, 6, 2, 12, 3, 5, 6), L(5, 6, -5, 5), L(-5, 5, -5, -5)}},                                                          // monotone side
    {{C(-6, -4, 14, 6, -14, 6, 6, -4), L(6, -4, -6, -4)}},                                                                      // a curve with a loop
    {{L(-5, -4, 6, -2), L(6, -2, 1, 7), L(1, 7, -5, -4)}},                                                                      // triangle
    {{L(-4, -4, 4, -4), L(4, -4, 4, 4), L(4, 4, -4, 4), L(-4, 4, -4, -4)}},                                                     // square
    {{C(0, -6, 3, -2, 3, 2, 0, 6), C(0, 6, -3, 2, -3, -2, 0, -6)}},                                                             // leaf, both sides monotone
    {{L(-6, -6, 6, -6), L(6, -6, 6, 6), C(6, 6, 2, -5, -2, -5, -6, 6), L(-6, 6, -6, -6)}},                                        // a curved bite from above
  };
  return S[k];
}
static CShape moved(const CShape &s, double dx, double dy, bool rev) {
  CShape r;
  for (auto &c : s) {
    std::vector<Seg> v;
    for (auto g : c) {
      for (auto &p : g.p) p = {p.x + dx, p.y + dy};
      if (rev) std::reverse(g.p, g.p + 4);
      v.push_back(g);
    }
    if (rev) std::reverse(v.begin(), v.end());
    r.push_back(v);
  }
  return r;
}
static river::paths paths_of(const CShape &s) {
  river::paths r;
  for (auto &c : s) {
    river::path p;
    p.moveto(c[0].p[0].x, c[0].p[0].y);
    for (auto &g : c)
      if (g.curve) p.cubicto(river::point(g.p[1].x, g.p[1].y), river::point(g.p[2].x, g.p[2].y), river::point(g.p[3].x, g.p[3].y));
      else p.lineto(g.p[3].x, g.p[3].y);
    r.push_back(std::move(p));
  }
  return r;
}
struct CR { CShape out; P2 last{0, 0}; bool ok = true; };
static bool same_pt(P2 a, P2 b) { return a.x == b.x && a.y == b.y; }
static void close_(CR *r) { if (!r->out.empty() && (r->out.back().empty() || !same_pt(r->out.back()[0].p[0], r->last))) r->ok = false; }
static void g_move(path_moveto_func_para) { (void)from; auto r = (CR *)user; close_(r); r->out.push_back({}); r->last = {to.x, to.y}; }
static void g_line(path_lineto_func_para) {
  auto r = (CR *)user;
  if (r->out.empty() || !same_pt({from.x, from.y}, r->last)) { r->ok = false; return; }
  r->out.back().push_back(L(from.x, from.y, to.x, to.y));
  r->last = {to.x, to.y};
}
static void g_cubic(path_cubicto_func_para) {
  auto r = (CR *)user;
  if (r->out.empty() || !same_pt({from.x, from.y}, r->last)) { r->ok = false; return; }
  r->out.back().push_back(C(from.x, from.y, ctrl1.x, ctrl1.y, ctrl2.x, ctrl2.y, to.x, to.y));
  r->last = {to.x, to.y};
}
static double bern(double a, double b, double c, double d, double t) {
  double u = 1 - t;
  return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d;
}
static P2 at(const Seg &g, double t) {
  if (!g.curve) return {g.p[0].x + (g.p[3].x - g.p[0].x) * t, g.p[0].y + (g.p[3].y - g.p[0].y) * t};
  return {bern(g.p[0].x, g.p[1].x, g.p[2].x, g.p[3].x, t), bern(g.p[0].y, g.p[1].y, g.p[2].y, g.p[3].y, t)};
}
// where the boundary crosses the height y: (x, +1 upwards / -1 downwards)
typedef std::vector<std::pair<double, int>> Hits;
static Hits hits(const CShape &s, double y) {
  Hits h;
  for (auto &c : s)
    for (auto &g : c) {
      // monotone stretches: the zeros of the derivative
      std::vector<double> cut = {0};
      if (g.curve) {
        double a = g.p[1].y - g.p[0].y, b = g.p[2].y - g.p[1].y, d = g.p[3].y - g.p[2].y;
        double qa = a - 2 * b + d, qb = 2 * (b - a), qc = a, D = qb * qb - 4 * qa * qc;
        if (std::fabs(qa) < 1e-12) { if (qb != 0) cut.push_back(-qc / qb); }
        else if (D > 0) { double e = std::sqrt(D), t0 = (-qb - e) / (2 * qa), t1 = (-qb + e) / (2 * qa); cut.push_back(std::min(t0, t1)); cut.push_back(std::max(t0, t1)); }
      }
      cut.push_back(1);
      std::vector<double> cs;
      for (double t : cut) if (t >= 0 && t <= 1) cs.push_back(t);
      for (size_t i = 0; i + 1 < cs.size(); i++) {
        double lo = cs[i], hi = cs[i + 1];
        bool below = at(g, lo).y <= y, below1 = at(g, hi).y <= y;
        if (below == below1) continue;
        for (int k = 0; k < 60; k++) { double m = (lo + hi) / 2; ((at(g, m).y <= y) == below ? lo : hi) = m; }
        h.push_back({at(g, (lo + hi) / 2).x, below ? 1 : -1});
      }
    }
  return h;
}
static double dist_to(const CShape &s, P2 p) {  // distance of a point to the curves and lines of s
  double best = 1e300;
  for (auto &c : s)
    for (auto &g : c) {
      auto d2 = [&](double t) { P2 q = at(g, t); return (q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y); };
      double d[65];
      for (int k = 0; k <= 64; k++) d[k] = d2(k / 64.0);
      for (int k = 0; k <= 64; k++) {  // every local minimum of the samples
        if ((k > 0 && d[k - 1] < d[k]) || (k < 64 && d[k + 1] < d[k])) continue;
        double lo = std::max(0.0, (k - 1) / 64.0), hi = std::min(1.0, (k + 1) / 64.0);
        for (int i = 0; i < 60; i++) {
          double m0 = lo + (hi - lo) / 3, m1 = hi - (hi - lo) / 3;
          if (d2(m0) < d2(m1)) hi = m1; else lo = m0;
        }
        best = std::min(best, std::sqrt(d2((lo + hi) / 2)));
      }
    }
  return best;
}
static Wind wind(const Hits &h, double qx) {
  B odd = B::of(false);
  double w = 0;
  for (auto &x : h) {
    B hit = gt(x.first, qx);
    odd ^= hit;
    w = w + (x.second > 0 ? num(hit) : -num(hit));
  }
  return {odd, w};
}
// Run after process(): every claim about a result with curved pieces.
static void read_result(const river::paths &out, CR &r) {
  river::path_traverse_funcs fn;
  fn.move_to = g_move; fn.line_to = g_line; fn.cubic_to = g_cubic;
  for (auto &x : out) x.traverse(fn, &r);
  close_(&r);
}
static void claim_result(Claims &cl, const std::string &n, const CShape &s, const CShape &c, const river::paths &out, river::clip_type op, river::fill_rule fill, double qx) {
  CR r;
  read_result(out, r);
  rs_h_observe("contours", r.out.size());
  cl.add((n + "chained and closed").c_str(), r.ok);
  CShape both = s;
  both.insert(both.end(), c.begin(), c.end());
  for (auto &ct : r.out)
    for (auto &g : ct)
      for (double t : {0.25, 0.5, 0.75}) cl.add((n + "a boundary piece lies on the input boundary").c_str(), dist_to(both, at(g, t)) < 1e-5);
  for (int i = -12; i <= 20; i++) {
    double qy = i + 0.44921875;
    Hits hs = hits(s, qy), hc = hits(c, qy), ho = hits(r.out, qy);
    Wind ws = wind(hs, qx), wc = wind(hc, qx), wo = wind(ho, qx);
    B clear = B::of(true);
    for (auto *h : {&hs, &hc}) for (auto &x : *h) clear &= !within(qx, x.first - 1e-4, x.first + 1e-4);
    cl.add((n + "region").c_str(), imp(clear, iff(combine(filled(ws, fill), filled(wc, fill), op), wo.odd)));
  }
}
