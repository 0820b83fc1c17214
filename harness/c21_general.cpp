// Clipping shapes bounded by arbitrary cubics (turning in x and y, circles, self-crossing) with
// polygons and with each other, in general position.
#include "cgeo.h"
#ifndef SETA
#define SETA 0, 1, 2, 4, 8
#define SETB 5, 6, 7, 0, 1
#endif
#ifndef POS
#define POS 3
#endif
static const int A[] = {SETA}, Bs[] = {SETB};
#define N(a) (long)(sizeof(a) / sizeof *a)
extern "C" void harness(void) {
  int a = A[rs_h_choice("a", 0, N(A) - 1)], b = Bs[rs_h_choice("b", 0, N(Bs) - 1)];
  bool rv = rs_h_choice("rev", 0, 1), swap = rs_h_tier() ? rs_h_choice("swap", 0, 1) : !rv;
  double dx = rs_h_choice("dx", -POS, POS) * (9.0 / POS) + 0.34375, dy = rs_h_choice("dy", -POS, POS) * (9.0 / POS) + 0.203125;
  CShape s = moved(shape(a), 0, 0, false), c = moved(shape(b), dx, dy, rv);
  if (swap) std::swap(s, c);
  double qx = rs_h_query("qx", -25 * 64, 25 * 64, 6);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(paths_of(s), river::path_type::subject);
      pr.add_path(paths_of(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      claim_result(cl, std::string(OPN[o]) + "/" + FILLN[f] + ": ", s, c, out, OPS[o], FILLS[f], qx);
    }
  cl.settle("curve clipping in general");
}
