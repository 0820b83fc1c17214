// Polygon templates whose edges are horizontal, vertical or at 45 degrees with
// power-of-two extents: every intersection of two such polygons is a dyadic
// number and every double operation of the clipper on them is exact.
#pragma once
#include "geo.h"
static inline Poly2 rectp(double x, double y, double w, double h) { return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}; }
static inline Poly2 rev(const Poly2 &p) { return Poly2(p.rbegin(), p.rend()); }
enum { T_RECT, T_TALL, T_DIAMOND, T_RTRI, T_L, T_U, T_BOW, T_HOUR, T_RING, T_NEST, T_OVER, T_PARA, T_TWO, T_CHEV, T_UP, T_DOWN, T_COUNT };
static inline Shape tmpl(int k) {
  switch (k) {
  case T_RECT: return {rectp(0, 0, 8, 8)};
  case T_TALL: return {rectp(0, 0, 4, 8)};
  case T_DIAMOND: return {{{4, 0}, {8, 4}, {4, 8}, {0, 4}}};
  case T_RTRI: return {{{0, 0}, {8, 0}, {0, 8}}};
  case T_L: return {{{0, 0}, {8, 0}, {8, 4}, {4, 4}, {4, 8}, {0, 8}}};
  case T_U: return {{{0, 0}, {8, 0}, {8, 8}, {6, 8}, {6, 4}, {2, 4}, {2, 8}, {0, 8}}};
  case T_BOW: return {{{0, 0}, {8, 8}, {8, 0}, {0, 8}}};
  case T_HOUR: return {{{0, 0}, {8, 0}, {0, 8}, {8, 8}}};
  case T_RING: return {rectp(0, 0, 8, 8), rev(rectp(2, 2, 4, 4))};
  case T_NEST: return {rectp(0, 0, 8, 8), rectp(2, 2, 4, 4)};
  case T_OVER: return {rectp(0, 0, 8, 8), rectp(4, 4, 8, 8)};
  case T_PARA: return {{{0, 0}, {8, 0}, {12, 4}, {4, 4}}};
  case T_TWO: return {rectp(0, 0, 4, 4), rectp(8, 0, 4, 4)};
  case T_CHEV: return {{{0, 0}, {4, 4}, {8, 0}, {8, 8}, {4, 12}, {0, 8}}};
  case T_UP: return {{{0, 0}, {8, 0}, {4, 4}}};
  default: return {{{0, 4}, {4, 0}, {8, 4}}};
  }
}
static inline Shape place(const Shape &s, double k, double dx, double dy, bool reverse) {
  Shape r;
  for (auto &p : s) {
    Poly2 q;
    for (auto &v : p) q.push_back({v.x * k + dx, v.y * k + dy});
    r.push_back(reverse ? rev(q) : q);
  }
  return r;
}
// A query point on a 1/8 grid, off every edge line of the half-integer arrangement.
static inline P2 query_point(long lim) {
  double x = rs_h_query("qi", -lim * 8, lim * 8, 3) + 1.0 / 32, y = rs_h_query("qj", -lim * 8, lim * 8, 3) + 1.0 / 64;
  return {x, y};
}
