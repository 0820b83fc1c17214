// Shared geometry oracle for the clipping harnesses: winding numbers computed
// directly from the definition (crossings of a horizontal ray), as terms.
#pragma once
#include "river.h"
#include "sym.h"
#include <vector>
#include <string>
struct P2 { double x, y; };
typedef std::vector<P2> Poly2;
typedef std::vector<Poly2> Shape;

// Does the ray from q towards +x cross edge a->b?  Signed: +1 upward, -1 downward.
// q must not have the y of any vertex and must not lie on the edge.
struct Cross { B up, down; };
static inline Cross crossing(P2 a, P2 b, P2 q) {
  B up = le(a.y, q.y) & gt(b.y, q.y), dn = le(b.y, q.y) & gt(a.y, q.y);
  // side: (b-a) x (q-a)
  double c;
  B left = B::of(false), right = B::of(false);
  if (rs_h_b_eval3(eq(a.x, b.x).h) == 1) {  // vertical: the ray hits iff q.x < x
    left = lt(q.x, a.x);
    right = left;
    return {up & left, dn & left};
  }
  c = (b.x - a.x) * (q.y - a.y) - (q.x - a.x) * (b.y - a.y);
  left = gt(c, 0);
  right = lt(c, 0);
  return {up & left, dn & right};
}
struct Wind { B odd; double w; };
static inline Wind winding(const Shape &s, P2 q) {
  B odd = B::of(false);
  double w = 0;
  for (auto &p : s)
    for (size_t i = 0; i < p.size(); i++) {
      P2 a = p[i], b = p[(i + 1) % p.size()];
      Cross c = crossing(a, b, q);
      odd ^= c.up | c.down;
      w = w + num(c.up) - num(c.down);
    }
  return {odd, w};
}
static inline B inside_odd(const Shape &s, P2 q) {  // even-odd only: no sums
  B odd = B::of(false);
  for (auto &p : s)
    for (size_t i = 0; i < p.size(); i++) {
      Cross c = crossing(p[i], p[(i + 1) % p.size()], q);
      odd ^= c.up | c.down;
    }
  return odd;
}
static inline B filled(const Wind &w, river::fill_rule f) {
  switch (f) {
  case river::fill_rule::even_odd: return w.odd;
  case river::fill_rule::non_zero: return !eq(w.w, 0);
  case river::fill_rule::positive: return gt(w.w, 0);
  default: return lt(w.w, 0);
  }
}
static inline B combine(B s, B c, river::clip_type t) {
  switch (t) {
  case river::clip_type::intersection: return s & c;
  case river::clip_type::union_: return s | c;
  case river::clip_type::difference: return s & !c;
  default: return s ^ c;
  }
}
// q avoids being on the line of an edge (checked only for non-vertical ones; vertical by grid)
static inline B off_edges(const Shape &s, P2 q) {
  B ok = B::of(true);
  for (auto &p : s)
    for (size_t i = 0; i < p.size(); i++) {
      P2 a = p[i], b = p[(i + 1) % p.size()];
      double c = (b.x - a.x) * (q.y - a.y) - (q.x - a.x) * (b.y - a.y);
      ok &= !eq(c, 0);
    }
  return ok;
}
static const river::clip_type OPS[] = {river::clip_type::intersection, river::clip_type::union_, river::clip_type::difference, river::clip_type::xor_};
static const river::fill_rule FILLS[] = {river::fill_rule::even_odd, river::fill_rule::non_zero, river::fill_rule::positive, river::fill_rule::negative};
static const char *OPN[] = {"intersection", "union", "difference", "xor"};
static const char *FILLN[] = {"even_odd", "non_zero", "positive", "negative"};

static inline river::paths to_paths(const Shape &s) {
  river::paths ps;
  for (auto &p : s) {
    river::path q;
    for (size_t i = 0; i < p.size(); i++)
      if (i == 0) q.moveto(p[i].x, p[i].y);
      else q.lineto(p[i].x, p[i].y);
    ps.push_back(std::move(q));
  }
  return ps;
}
// Read an output path set back; wellformed is cleared on a structural problem.
struct Reader {
  Shape out;
  bool ok = true;
  const char *why = "";
  P2 last{0, 0};
  B chained = B::of(true);
  int curves = 0;
};
static inline void rd_move(path_moveto_func_para) {
  auto r = (Reader *)user;
  (void)from;
  r->out.push_back({{to.x, to.y}});
  r->last = {to.x, to.y};
}
static inline void rd_line(path_lineto_func_para) {
  auto r = (Reader *)user;
  if (r->out.empty()) { r->ok = false; r->why = "line before move"; return; }
  r->chained &= eq(from.x, r->last.x) & eq(from.y, r->last.y);
  r->out.back().push_back({to.x, to.y});
  r->last = {to.x, to.y};
}
static inline void rd_cubic(path_cubicto_func_para) {
  auto r = (Reader *)user;
  (void)ctrl1; (void)ctrl2;
  r->curves++;
  if (r->out.empty()) { r->ok = false; r->why = "curve before move"; return; }
  r->chained &= eq(from.x, r->last.x) & eq(from.y, r->last.y);
  r->out.back().push_back({to.x, to.y});
  r->last = {to.x, to.y};
}
static inline void read_paths(const river::paths &ps, Reader &r) {
  river::path_traverse_funcs f;
  f.move_to = rd_move;
  f.line_to = rd_line;
  f.cubic_to = rd_cubic;
  for (auto &p : ps) p.traverse(f, &r);
}
