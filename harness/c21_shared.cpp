// Shapes that share curved sides exactly: the same outline in both roles, or two shapes on
// either side of one curve.
#include "cgeo.h"
#ifndef NSIDE
#define NSIDE 3
#endif
static Seg rev(Seg g) { std::reverse(g.p, g.p + 4); return g; }
// closes a side into a contour through two corners at x = w
static std::vector<Seg> closed(Seg g, double w) {
  P2 a = g.p[0], b = g.p[3];
  return {g, L(b.x, b.y, w, b.y + 0.5), L(w, b.y + 0.5, w, a.y - 0.5), L(w, a.y - 0.5, a.x, a.y)};
}
extern "C" void harness(void) {
  static const Seg SIDE[] = {
    C(6, -5, 6, 2, 12, 3, 5, 6),       // monotone
    C(0, -6, 3, -2, 3, 2, 0, 6),       // bulge
    C(6, -5, 2, 9, 14, -9, 7, 8),      // S with two turns
    C(0, -4, 9, -9, 3, 12, -2, 5),     // turns below and above its ends
  };
  long mode = rs_h_choice("mode", 0, 3);
  CShape s, c;
  bool crossing = mode == 3;  // break points of the shared curve are found twice and rounded
  double ox = rs_h_choice("ox", rs_h_tier() ? -1 : 0, 1) * 2.34375, oy = rs_h_choice("oy", rs_h_tier() ? -1 : 0, 1) * 1.203125;
  if (mode == 0) {  // the same outline
    int k = rs_h_choice("shape", 0, 8);
    crossing = k == 4;
    s = moved(shape(k), ox, oy, rs_h_choice("rs", 0, 1));
    c = moved(shape(k), ox, oy, rs_h_choice("rc", 0, 1));
  } else {          // a common side, the rest of the two shapes on the same or on opposite sides of it
    int k = rs_h_choice("side", 0, NSIDE);
    crossing |= k == 3;
    double w = mode == 1 ? -10.5 : 19.25, v = rs_h_choice("v", 0, 1) ? 15.75 : -8.5;
    s = moved({closed(SIDE[k], w)}, ox, oy, rs_h_choice("rs", 0, 1));
    c = moved({closed(rev(SIDE[k]), v)}, ox, oy, rs_h_choice("rc", 0, 1));
  }
  if (mode == 3) {  // and a contour that crosses the common side
    double y = rs_h_choice("y", -2, 2) * 1.75 + 0.359375;
    CShape third = {{L(-4, y, 11, y + 0.25), L(11, y + 0.25, 11, y + 2), L(11, y + 2, -4, y + 2.25), L(-4, y + 2.25, -4, y)}};
    (rs_h_choice("to", 0, 1) ? s : c).push_back(moved(third, ox, oy, false)[0]);
  }
  double qx = rs_h_query("qx", -25 * 64, 25 * 64, 6);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(paths_of(s), river::path_type::subject);
      pr.add_path(paths_of(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      claim_result(cl, std::string(OPN[o]) + "/" + FILLN[f] + ": ", s, c, out, OPS[o], FILLS[f], qx);
      if (!crossing) {  // no piece is there twice: what the two shapes share is not a seam of the result
        CR r;
        read_result(out, r);
        std::vector<Seg> all;
        for (auto &k : r.out) all.insert(all.end(), k.begin(), k.end());
        int twice = 0;
        for (size_t i = 0; i < all.size(); i++)
          for (size_t j = 0; j < i; j++) {
            auto close = [](P2 a, P2 b) { return std::fabs(a.x - b.x) < 1e-6 && std::fabs(a.y - b.y) < 1e-6; };
            const P2 *u = all[i].p, *v = all[j].p;
            if (((close(u[0], v[0]) && close(u[3], v[3])) || (close(u[0], v[3]) && close(u[3], v[0]))) && close(at(all[i], 0.5), at(all[j], 0.5))) twice++;
          }
        cl.add((std::string(OPN[o]) + "/" + FILLN[f] + ": no piece is there twice").c_str(), twice == 0);
      }
    }
  cl.settle("shared curves");
}
