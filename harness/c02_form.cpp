// C02: the output is a well-formed, canonically oriented contour set lying on the input boundaries.
#include "shapes.h"
#ifndef SETA
#define SETA T_RECT, T_DIAMOND, T_BOW
#define SETB T_RECT, T_DIAMOND, T_RING
#endif
static const int A[] = {SETA}, Bs[] = {SETB};
#define N(a) (long)(sizeof(a) / sizeof *a)
// p lies on one of the edges of s (closed)
static B on_boundary(const Shape &s, P2 p) {
  B any = B::of(false);
  for (auto &c : s)
    for (size_t i = 0; i < c.size(); i++) {
      P2 a = c[i], b = c[(i + 1) % c.size()];
      B in = (le(a.x, p.x) & le(p.x, b.x)) | (le(b.x, p.x) & le(p.x, a.x));
      B iny = (le(a.y, p.y) & le(p.y, b.y)) | (le(b.y, p.y) & le(p.y, a.y));
      any |= in & iny & eq((b.x - a.x) * (p.y - a.y), (b.y - a.y) * (p.x - a.x));
    }
  return any;
}
extern "C" void harness(void) {
  int a = A[rs_h_choice("a", 0, N(A) - 1)], b = Bs[rs_h_choice("b", 0, N(Bs) - 1)];
  bool ra = rs_h_choice("ra", 0, 1), rb = rs_h_choice("rb", 0, 1);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  Shape s = place(tmpl(a), 1, ox, oy, ra), c = place(tmpl(b), 1, ox + dx, oy + dy, rb);
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(to_paths(s), river::path_type::subject);
      pr.add_path(to_paths(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      std::string m = std::string(OPN[o]) + "/" + FILLN[f] + ": ";
      Shape all;
      for (auto &pp : out) {
        Reader r;
        river::paths one;
        river::path_traverse_funcs fs;
        fs.move_to = rd_move; fs.line_to = rd_line; fs.cubic_to = rd_cubic;
        pp.traverse(fs, &r);
        cl.add((m + "a contour is one moveto followed by lines").c_str(), r.ok && r.out.size() == 1 && r.curves == 0);
        if (!r.ok || r.out.size() != 1) continue;
        Poly2 &p = r.out[0];
        cl.add((m + "a contour has at least three vertices").c_str(), p.size() >= 3);
        cl.add((m + "segments are chained").c_str(), r.chained);
        cl.add((m + "contour is closed").c_str(), eq(p.front().x, p.back().x) & eq(p.front().y, p.back().y));
        for (size_t i = 0; i + 1 < p.size(); i++) {
          cl.add((m + "no zero-length segment").c_str(), !(eq(p[i].x, p[i + 1].x) & eq(p[i].y, p[i + 1].y)));
          cl.add((m + "vertices lie on the input boundaries").c_str(), on_boundary(s, p[i]) | on_boundary(c, p[i]));
          P2 mid{(p[i].x + p[i + 1].x) / 2, (p[i].y + p[i + 1].y) / 2};
          cl.add((m + "segments lie on the input boundaries").c_str(), on_boundary(s, mid) | on_boundary(c, mid));
        }
        all.push_back(p);
      }
      // no two segments of the result run along each other: every segment separates inside from outside
      std::vector<std::pair<P2, P2>> segs;
      for (auto &p : all)
        for (size_t i = 0; i + 1 < p.size(); i++) segs.push_back({p[i], p[i + 1]});
      B seam = B::of(false);
      for (size_t i = 0; i < segs.size(); i++)
        for (size_t j = 0; j < segs.size(); j++)
          if (i != j) {
            P2 u = segs[j].first, v = segs[j].second, g{(segs[i].first.x + segs[i].second.x) / 2, (segs[i].first.y + segs[i].second.y) / 2};
            B in = (lt(u.x, g.x) & lt(g.x, v.x)) | (lt(v.x, g.x) & lt(g.x, u.x)) | (eq(u.x, g.x) & eq(g.x, v.x));
            B iny = (lt(u.y, g.y) & lt(g.y, v.y)) | (lt(v.y, g.y) & lt(g.y, u.y)) | (eq(u.y, g.y) & eq(g.y, v.y));
            seam |= in & iny & eq((v.x - u.x) * (g.y - u.y), (v.y - u.y) * (g.x - u.x));
          }
      cl.add((m + "no seam inside or outside the result").c_str(), !seam);
      rs_h_observe("n", all.size());
      Wind w = winding(all, q);
      cl.add((m + "winding 0 or 1").c_str(), eq(w.w, 0) | eq(w.w, 1));
    }
  cl.settle("form");
}
