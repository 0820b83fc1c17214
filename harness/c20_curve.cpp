// A result with curved pieces is a valid input: (s op1 c) op2 d, where d is another shape, one of
// the operands again (the outlines then coincide in part) or the result itself.
#include "cgeo.h"
#ifndef SETA
#define SETA 1, 2, 0, 4
#define SETB 5, 8, 0, 7
#endif
#ifndef WHAT
#define WHAT 0
#endif
extern "C" void harness(void) {
  static const int A[] = {SETA}, Bs[] = {SETB};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  bool as_clip = rs_h_choice("as_clip", 0, 1);
  int P = rs_h_tier() ? 6 : 2;
  double dx = rs_h_choice("dx", -P, P) * (8.0 / P) + 0.34375, dy = rs_h_choice("dy", -P, P) * (8.0 / P) + 0.203125;
  CShape s = moved(shape(a), 0, 0, false), c = moved(shape(b), dx, dy, as_clip), d = moved(shape(as_clip ? 1 : 6), 2.71875, -1.140625, false);
  if (WHAT) d = rs_h_choice("again", 0, 1) ? c : s;
  double qx = rs_h_query("qx", -25 * 64, 25 * 64, 6);
  Claims cl;
  for (int o1 = 0; o1 < 4; o1++) {
    using namespace river;
    auto F1 = FILLS[o1 % 2];
    processor p1;
    p1.add_path(paths_of(s), path_type::subject);
    p1.add_path(paths_of(c), path_type::clip);
    paths mid;
    p1.process(OPS[o1], F1, mid);
    for (int o2 = 0; o2 < 4; o2++) {
      auto F2 = FILLS[(o1 + o2) % 3];
      processor p2;
      p2.add_path(mid, as_clip ? path_type::clip : path_type::subject);
      p2.add_path(paths_of(d), as_clip ? path_type::subject : path_type::clip);
      paths out;
      p2.process(OPS[o2], F2, out);
      CR r;
      read_result(out, r);
      std::string n = std::string("(") + OPN[o1] + ") " + OPN[o2] + ": ";
      rs_h_observe("contours", r.out.size());
      cl.add((n + "chained and closed").c_str(), r.ok);
      for (int i = -12; i <= 20; i++) {
        double qy = i + 0.44921875;
        Hits hs = hits(s, qy), hc = hits(c, qy), hd = hits(d, qy), ho = hits(r.out, qy);
        Wind ws = wind(hs, qx), wc = wind(hc, qx), wd = wind(hd, qx), wo = wind(ho, qx);
        B clear = B::of(true);
        for (auto *h : {&hs, &hc, &hd}) for (auto &x : *h) clear &= !within(qx, x.first - 1e-4, x.first + 1e-4);
        B m1 = combine(filled(ws, F1), filled(wc, F1), OPS[o1]), m2 = filled(wd, F2);
        cl.add((n + "region").c_str(), imp(clear, iff(as_clip ? combine(m2, m1, OPS[o2]) : combine(m1, m2, OPS[o2]), wo.odd)));
      }
    }
  }
  cl.settle("chain with curves");
}
