// C07: degenerate input - empty, single points, zero area, spikes, retraced or
// coincident contours - is processed like any other: the region is the one the
// winding numbers define, nothing hangs, crashes or leaves the input's box.
#include "shapes.h"
#include <cmath>
enum { D_NONE, D_POINT, D_HSEG, D_VSEG, D_DSEG, D_SAME, D_COLL, D_FLATH, D_FLATV, D_SPIKE, D_SPUR, D_TWICE, D_CANCEL, D_SHARE, D_CORNER, D_ROUND2, D_EMPTYC, D_NOTCH, D_COUNT };
static Shape degen(int k) {
  switch (k) {
  case D_NONE: return {};
  case D_POINT: return {{{4, 4}}};
  case D_HSEG: return {{{0, 4}, {8, 4}}};
  case D_VSEG: return {{{4, 0}, {4, 8}}};
  case D_DSEG: return {{{0, 0}, {8, 8}}};
  case D_SAME: return {{{4, 4}, {4, 4}, {4, 4}}};
  case D_COLL: return {{{0, 0}, {8, 8}, {4, 4}}};
  case D_FLATH: return {{{0, 4}, {8, 4}, {8, 4}, {0, 4}}};
  case D_FLATV: return {{{4, 0}, {4, 8}, {4, 8}, {4, 0}}};
  case D_SPIKE: return {{{0, 0}, {8, 0}, {8, 4}, {12, 4}, {8, 4}, {8, 8}, {0, 8}}};   // out-and-back horizontal spike
  case D_SPUR: return {{{0, 0}, {8, 0}, {8, 8}, {4, 8}, {4, 12}, {4, 8}, {0, 8}}};    // vertical spur
  case D_TWICE: return {rectp(0, 0, 8, 8), rectp(0, 0, 8, 8)};
  case D_CANCEL: return {rectp(0, 0, 8, 8), rev(rectp(0, 0, 8, 8))};
  case D_SHARE: return {rectp(0, 0, 4, 8), rectp(4, 0, 4, 8)};
  case D_CORNER: return {rectp(0, 0, 4, 4), rectp(4, 4, 4, 4)};
  case D_ROUND2: return {{{0, 0}, {8, 0}, {8, 8}, {0, 8}, {0, 0}, {8, 0}, {8, 8}, {0, 8}}};
  case D_EMPTYC: return {{{1, 1}}, rectp(0, 0, 8, 8), {{3, 3}, {3, 3}}};
  default: return {{{0, 0}, {8, 0}, {8, 8}, {4, 4}, {4, 4}, {0, 8}}};
  }
}
extern "C" void harness(void) {
  int a = rs_h_choice("a", 0, D_COUNT - 1), b = rs_h_choice("b", 0, rs_h_tier() ? 3 : 1);
  bool swap = rs_h_choice("swap", 0, 1);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  static const int BT[] = {T_RECT, T_DIAMOND, T_UP, T_L};
  Shape s = place(degen(a), 1, ox, oy, false), c = place(tmpl(BT[b]), 1, ox + dx, oy + dy, false);
  if (swap) std::swap(s, c);
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(to_paths(s), river::path_type::subject);
      pr.add_path(to_paths(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      std::string m = std::string(OPN[o]) + "/" + FILLN[f] + ": ";
      for (auto &p : r.out)
        for (auto &v : p) {
          cl.add((m + "output is finite").c_str(), within(v.x, -1e300, 1e300) & within(v.y, -1e300, 1e300));
          cl.add((m + "output stays near the input").c_str(), within(v.x - ox, -13, 21) & within(v.y - oy, -13, 21));
        }
      rs_h_observe("n", r.out.size());
      cl.add((m + "region").c_str(), iff(combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]), inside_odd(r.out, q)));
    }
  cl.settle("degenerate input");
}
