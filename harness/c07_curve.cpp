// Degenerate curves: zero length, straight, flat, closed on themselves, cusps, traversed twice or
// there and back. Nothing crashes, nothing hangs, the region is the one defined.
#include "cgeo.h"
#ifndef LAST
#define LAST 18
#endif
static Seg rev(Seg g) { std::reverse(g.p, g.p + 4); return g; }
static CShape degenerate(int k) {
  const Seg g = C(5, -5, 11, -1, 9, 4, 3, 6), z = C(-4, 5, -4, 5, -4, 5, -4, 5);
  std::vector<Seg> o = {g, L(3, 6, -4, 5), L(-4, 5, 5, -5)}, r;
  switch (k) {
  case 0: return {{C(1, 1, 1, 1, 1, 1, 1, 1)}};                                                        // one point
  case 1: return {{C(-5, -4, -5, -4, 6, -2, 6, -2), L(6, -2, 1, 7), L(1, 7, -5, -4)}};                 // straight, controls at the ends
  case 2: return {{C(-5, -4, -2, -3, 1, -2, 4, -1), L(4, -1, 1, 7), L(1, 7, -5, -4)}};                 // straight, even
  case 3: return {{C(-4, -4, -2, -4, 2, -4, 4, -4), L(4, -4, 4, 4), C(4, 4, 1, 4, 0, 4, -4, 4), L(-4, 4, -4, -4)}};  // flat sides
  case 4: return {{C(-4, -4, 9, -4, -9, -4, 4, -4), L(4, -4, 4, 4), L(4, 4, -4, 4), L(-4, 4, -4, -4)}};  // flat, beyond its ends
  case 5: return {{C(0, -5, 14, 4, -14, 4, 0, -5)}};                                                   // one curve back to its start
  case 6: return {{C(5, -5, 5, -5, 9, 4, 3, 6), L(3, 6, -4, 5), L(-4, 5, 5, -5)}};                     // first control on the end
  case 7: return {{C(5, -5, 11, -1, 3, 6, 3, 6), L(3, 6, -4, 5), L(-4, 5, 5, -5)}};                    // second control on the end
  case 8: return {{g, rev(g)}};                                                                        // there and back
  case 9: r = o; r.insert(r.end(), o.begin(), o.end()); return {r};                                    // twice around
  case 10: return {o, moved({o}, 0, 0, true)[0]};                                                      // cancelling
  case 11: return {{g, L(3, 6, -4, 5), z, L(-4, 5, 5, -5)}};                                           // a zero-length curve in between
  case 12: return {{C(5, -5, 11, -1, 9, 4, 3, 6), L(3, 6, 5, -5)}};                                    // a curve and its chord
  case 13: return {{C(-6, -4, 6, 6, -6, 6, 6, -4), L(6, -4, -6, -4)}};                                 // a cusp
  case 14: return {{C(-6, -5, -2, 3, 2, -3, 7, 5), L(7, 5, -6, 6), L(-6, 6, -6, -5)}};                 // nearly flat in the middle
  case 15: return {{C(-6, -5, -2, 0.5, 2, 0.5, 7, 6), L(7, 6, -6, 7), L(-6, 7, -6, -5)}};              // flat tangent inside
  case 16: return {o, o};                                                                              // the same contour twice
  case 17: return {};
  default: return {{C(-4, -4, -4, -4, -4, -4, 4, 4), L(4, 4, -4, 4), L(-4, 4, -4, -4)}};                // straight, three points in one
  }
}
extern "C" void harness(void) {
  long k = rs_h_choice("k", 0, LAST);
  bool swap = rs_h_choice("swap", 0, 1);
  int b = rs_h_choice("b", 0, 1);
  int P = rs_h_tier() ? 6 : 2;
  double dx = rs_h_choice("dx", -P, P) * (8.0 / P) + 0.34375, dy = rs_h_choice("dy", -P, P) * (8.0 / P) + 0.203125;
  CShape s = degenerate(k), c = moved(shape(b ? 7 : 6), dx, dy, swap);
  if (swap) std::swap(s, c);
  double qx = rs_h_query("qx", -25 * 64, 25 * 64, 6);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(paths_of(s), river::path_type::subject);
      pr.add_path(paths_of(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      claim_result(cl, std::string(OPN[o]) + "/" + FILLN[f] + ": ", s, c, out, OPS[o], FILLS[f], qx);
    }
  cl.settle("degenerate curves");
}
