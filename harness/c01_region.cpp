// C01/C02: result region of a boolean operation, template polygons under symbolic translation.
#include "shapes.h"
#ifndef SETA
#define SETA T_RECT, T_DIAMOND, T_L
#define SETB T_RECT, T_TALL, T_DIAMOND, T_RTRI
#endif
static const int A[] = {SETA}, Bs[] = {SETB};
#define N(a) (long)(sizeof(a) / sizeof *a)
extern "C" void harness(void) {
  int a = A[rs_h_choice("a", 0, N(A) - 1)], b = Bs[rs_h_choice("b", 0, N(Bs) - 1)];
  bool ra = rs_h_choice("ra", 0, 1), rb = rs_h_choice("rb", 0, 1);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  Shape s = place(tmpl(a), 1, ox, oy, ra), c = place(tmpl(b), 1, ox + dx, oy + dy, rb);
  P2 q = query_point(30);
  q.x = q.x + ox; q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      pr.add_path(to_paths(s), river::path_type::subject);
      pr.add_path(to_paths(c), river::path_type::clip);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      B want = combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]);
      B wo = inside_odd(r.out, q);
      rs_h_observe("n", r.out.size());
      std::string m = std::string("region ") + OPN[o] + "/" + FILLN[f];
      cl.add(m.c_str(), iff(want, wo));
    }
  cl.settle("region");
}
