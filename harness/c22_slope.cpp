// Polygons with edges of any slope: crossings are not representable and are rounded. The
// exact region is claimed for every query point that is not on an input edge (the query
// grid keeps it a few hundredths away from the edges it is not on).
#include "shapes.h"
static const Shape &gtmpl(int k) {
  static const Shape G[] = {
    {{{0, 0}, {7, 2}, {3, 9}}},                                          // triangle
    {{{0, 5}, {9, 0}, {6, 8}}},                                          // another
    {{{0, 0}, {9, 5}, {8, 0}, {1, 7}}},                                  // self-crossing
    {{{5, 0}, {8, 9}, {0, 3}, {10, 3}, {2, 9}}},                         // pentagram
    {{{4, 0}, {6, 5}, {4, 12}, {1, 5}}},                                 // kite
    {{{0, 0}, {12, 1}, {12, 2}}},                                        // sliver
    {{{0, 0}, {5, 1}, {10, 0}, {7, 4}, {10, 8}, {5, 6}, {0, 9}, {3, 4}}}, // star with a hole's worth of dents
    {{{0, 0}, {10, 3}, {6, 10}, {-2, 7}}, {{3, 3}, {2, 6}, {6, 7}, {6, 4}}}, // ring
    {{{0, 0}, {8, 0}, {8, 6}, {0, 6}}},                                  // rectangle
    {{{0, 0}, {6, 4}, {9, 6}, {6, 4}, {2, 9}}},                          // spike along an edge
  };
  return G[k];
}
#ifndef SETA
#define SETA 0, 2, 4
#define SETB 1, 8
#endif
#ifndef RANGE
#define RANGE 9
#endif
static const int A[] = {SETA}, Bs[] = {SETB};
#define N(a) (long)(sizeof(a) / sizeof *a)
struct Line { P2 a; double ux, uy; };  // a point (symbolic) and a concrete direction
static void lines_of(const Shape &t, const Shape &s, bool reversed, std::vector<Line> &L) {
  for (size_t k = 0; k < t.size(); k++)
    for (size_t i = 0, n = t[k].size(); i < n; i++) {
      size_t j = (i + 1) % n, si = reversed ? n - 1 - i : i;
      L.push_back({s[k][si], t[k][j].x - t[k][i].x, t[k][j].y - t[k][i].y});
    }
}
static double side(const Line &l, P2 q) { return l.ux * (q.y - l.a.y) - l.uy * (q.x - l.a.x); }
// even-odd membership of q in the result; every result edge is first matched with the input
// line it lies on, so that the side of q is a linear term
static B inside(const Shape &out, const std::vector<Line> &L, P2 q, B &on_input) {
  B odd = B::of(false);
  for (auto &p : out)
    for (size_t i = 0; i < p.size(); i++) {
      P2 a = p[i], b = p[(i + 1) % p.size()];
      double pax = rs_h_peek(a.x), pay = rs_h_peek(a.y), pbx = rs_h_peek(b.x), pby = rs_h_peek(b.y);
      if (pax == pbx && pay == pby) continue;
      int best = -1;
      double bd = 1e-6;
      for (size_t k = 0; k < L.size(); k++) {
        double lx = rs_h_peek(L[k].a.x), ly = rs_h_peek(L[k].a.y);
        double da = L[k].ux * (pay - ly) - L[k].uy * (pax - lx), db = L[k].ux * (pby - ly) - L[k].uy * (pbx - lx);
        double d = (da < 0 ? -da : da) + (db < 0 ? -db : db);
        if (d < bd) { bd = d; best = k; }
      }
      if (best < 0) { on_input &= B::of(false); continue; }
      const Line &l = L[best];
      on_input &= within(side(l, a), -1e-6, 1e-6) & within(side(l, b), -1e-6, 1e-6);
      B spans = (le(a.y, q.y) & gt(b.y, q.y)) | (le(b.y, q.y) & gt(a.y, q.y));
      double c = side(l, q);
      odd ^= spans & (l.uy > 0 ? gt(c, 0) : lt(c, 0));
    }
  return odd;
}
extern "C" void harness(void) {
  int a = A[rs_h_choice("a", 0, N(A) - 1)], b = Bs[rs_h_choice("b", 0, N(Bs) - 1)];
  bool ra = rs_h_choice("ra", 0, 1), rb = rs_h_tier() ? rs_h_choice("rb", 0, 1) : !ra;
  double dx = rs_h_dyadic("dx", -RANGE, RANGE, 0), dy = rs_h_dyadic("dy", -RANGE, RANGE, 0);
  Shape s = place(gtmpl(a), 1, 0, 0, ra), c = place(gtmpl(b), 1, dx, dy, rb);
  P2 q = query_point(24);
  std::vector<Line> L;
  lines_of(gtmpl(a), s, ra, L);
  lines_of(gtmpl(b), c, rb, L);
  for (auto &l : L) assume(!eq(side(l, q), 0));
  auto lw = [&](const Shape &sh, size_t from) {  // winding number with linear side tests
    double w = 0;
    B odd = B::of(false);
    size_t k = from;
    bool rv = from ? rb : ra;
    for (auto &p : sh)
      for (size_t i = 0; i < p.size(); i++, k++) {
        const Line &l = L[k];
        size_t n = p.size(), si = rv ? n - 1 - i : i, sj = rv ? (n - 1 - (i + 1) % n) : (i + 1) % n;
        P2 e0 = p[si], e1 = p[sj];
        B spans = (le(e0.y, q.y) & gt(e1.y, q.y)) | (le(e1.y, q.y) & gt(e0.y, q.y));
        double cc = side(l, q);
        B hit = spans & (l.uy > 0 ? gt(cc, 0) : lt(cc, 0));
        odd ^= hit;
        w = w + ((l.uy > 0) != rv ? num(hit) : -num(hit));
      }
    return Wind{odd, w};
  };
  size_t na = 0;
  for (auto &p : s) na += p.size();
  Wind ws = lw(s, 0), wc = lw(c, na);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(to_paths(s), river::path_type::subject);
      pr.add_path(to_paths(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      rs_h_observe("n", r.out.size());
      B on = B::of(true);
      B in = inside(r.out, L, q, on);
      std::string m = std::string(OPN[o]) + "/" + FILLN[f];
      cl.add(("every edge on an input edge " + m).c_str(), on);
      cl.add(("region " + m).c_str(), iff(combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]), in));
    }
  cl.settle("slopes");
}
