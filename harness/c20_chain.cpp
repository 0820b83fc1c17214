// A result is itself a valid input: (s op1 c) op2 d has the region the definition gives,
// whether the first result enters as subject or as clip, and under every fill rule that
// fills winding number one.
#include "shapes.h"
extern "C" void harness(void) {
  static const int A[] = {T_RECT, T_DIAMOND, T_RING, T_U}, Bs[] = {T_DIAMOND, T_RECT, T_L, T_BOW};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  bool as_clip = rs_h_choice("as_clip", 0, 1), rb = rs_h_choice("rb", 0, 1);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = 3, oy = -5;
  Shape s = place(tmpl(a), 1, ox, oy, false), c = place(tmpl(b), 1, ox + dx, oy + dy, rb), d = place(tmpl(T_TALL), 1, ox + 2, oy - 2, false);
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q), wd = winding(d, q);
  Claims cl;
  for (int o1 = 0; o1 < 4; o1++) {
    river::processor p1;
    p1.add_path(to_paths(s), river::path_type::subject);
    p1.add_path(to_paths(c), river::path_type::clip);
    river::paths mid;
    auto F1 = FILLS[(o1 + rb) % 2];
    p1.process(OPS[o1], F1, mid);
    B m1 = combine(filled(ws, F1), filled(wc, F1), OPS[o1]);
    for (int o2 = 0; o2 < 4; o2++) {
      auto F2 = FILLS[(o1 + o2) % 3];
      river::processor p2;
      p2.add_path(mid, as_clip ? river::path_type::clip : river::path_type::subject);
      p2.add_path(to_paths(d), as_clip ? river::path_type::subject : river::path_type::clip);
      river::paths out;
      p2.process(OPS[o2], F2, out);
      Reader r;
      read_paths(out, r);
      rs_h_observe("n", r.out.size());
      B m2 = filled(wd, F2);
      B want = as_clip ? combine(m2, m1, OPS[o2]) : combine(m1, m2, OPS[o2]);
      cl.add((std::string("region of (") + OPN[o1] + ") " + OPN[o2]).c_str(), iff(want, inside_odd(r.out, q)));
    }
  }
  cl.settle("chain");
}
