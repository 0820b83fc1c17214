// C04: the region does not depend on how a contour is written down.
#include "shapes.h"
// variants of a contour list that describe the same region
static Shape rewrite(const Shape &s, int v) {
  Shape r;
  for (auto &p : s) {
    Poly2 q;
    size_t n = p.size();
    size_t st = v == 1 ? 1 : v == 2 ? n - 1 : 0;
    for (size_t i = 0; i < n; i++) {
      P2 a = p[(i + st) % n], b = p[(i + st + 1) % n];
      q.push_back(a);
      if (v == 4 && i == 1) q.push_back(a);                                        // repeated vertex
      if (v == 5) q.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2});                 // collinear vertex on every edge
    }
    if (v == 3) q.push_back(q.front());                                            // explicitly closed
    if (v == 6) { q.push_back(q.front()); q.push_back(q.front()); }                // closed twice
    r.push_back(q);
  }
  return r;
}
static river::paths one_path(const Shape &s) {  // all contours in a single path object
  river::paths ps(1);
  for (auto &p : s)
    for (size_t i = 0; i < p.size(); i++)
      if (i == 0) ps[0].moveto(p[i].x, p[i].y);
      else ps[0].lineto(p[i].x, p[i].y);
  return ps;
}
static void read_all(read_path_func_para) {
  for (auto &p : *(const river::paths *)paths) p.traverse(segment_funcs, user);
}
extern "C" void harness(void) {
  static const int A[] = {T_RECT, T_DIAMOND, T_RING}, Bs[] = {T_RECT, T_DIAMOND, T_U};
  long v = rs_h_choice("variant", 0, 9);
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 2 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 2 : 1)];
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  Shape s = place(tmpl(a), 1, ox, oy, false), c = place(tmpl(b), 1, ox + dx, oy + dy, false);
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q);
  Shape s2 = v <= 6 ? rewrite(s, v) : s, c2 = v <= 6 ? rewrite(c, v) : c;
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 3; f++) {
      river::processor pr;
      if (v == 9) {  // read through the callback interface, contours in one stream
        river::paths ps = to_paths(s2), pc = to_paths(c2);
        pr.add_path(read_all, &pc, river::path_type::clip);
        pr.add_path(read_all, &ps, river::path_type::subject);
      } else if (v == 8) {
        pr.add_path(one_path(s2), river::path_type::subject);
        pr.add_path(one_path(c2), river::path_type::clip);
      } else if (v == 7) {  // clip first
        pr.add_path(to_paths(c2), river::path_type::clip);
        pr.add_path(to_paths(s2), river::path_type::subject);
      } else {
        pr.add_path(to_paths(s2), river::path_type::subject);
        pr.add_path(to_paths(c2), river::path_type::clip);
      }
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      B want = combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]);
      rs_h_observe("n", r.out.size());
      cl.add((std::string("region ") + OPN[o] + "/" + FILLN[f]).c_str(), iff(want, inside_odd(r.out, q)));
    }
  cl.settle("region");
}
