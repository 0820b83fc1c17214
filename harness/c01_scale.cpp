// Region of a boolean operation when sizes are extreme: a scene of any magnitude, and a small
// shape at a corner of one with edges a million times longer.
#include "shapes.h"
#ifndef SETA
#define SETA T_RECT, T_DIAMOND, T_L
#define SETB T_RECT, T_UP
#endif
#ifndef MODES
#define MODES 4
#endif
static const int A[] = {SETA}, Bs[] = {SETB};
#define N(a) (long)(sizeof(a) / sizeof *a)
extern "C" void harness(void) {
  int a = A[rs_h_choice("a", 0, N(A) - 1)], b = Bs[rs_h_choice("b", 0, N(Bs) - 1)];
  bool ra = rs_h_choice("ra", 0, 1), rb = rs_h_tier() ? rs_h_choice("rb", 0, 1) : !ra, swap = ra;
  // unit of the small shape, ratio of the sizes
  int mode = rs_h_choice("mode", 0, MODES - 1);
  static const double U[] = {1.0 / (1ll << 40), 1ll << 40, 1, 1.0 / 1024}, R[] = {1, 1, 1 << 19, 1 << 19};
  double u = U[mode], k = R[mode];
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  Shape T = tmpl(a);
  P2 o = {0, 0};
  if (k > 1) {  // at a corner of the large shape
    int v = rs_h_choice("corner", 0, (int)T[0].size() - 1);
    o = {T[0][v].x * k, T[0][v].y * k};
  }
  Shape s = place(T, u * k, 0, 0, ra), c = place(tmpl(b), u, (o.x + dx) * u, (o.y + dy) * u, rb);
  P2 q = query_point(30);
  q = {(q.x + o.x) * u, (q.y + o.y) * u};
  Wind ws = winding(s, q), wc = winding(c, q);
  if (swap) std::swap(ws, wc);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(to_paths(s), swap ? river::path_type::clip : river::path_type::subject);
      pr.add_path(to_paths(c), swap ? river::path_type::subject : river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      rs_h_observe("n", r.out.size());
      cl.add((std::string("region ") + OPN[o] + "/" + FILLN[f]).c_str(), iff(combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]), inside_odd(r.out, q)));
    }
  cl.settle("region at scale");
}
