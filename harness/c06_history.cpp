// C06: a result depends only on the paths added so far and on the operation asked for,
// not on earlier process() calls, other processors, or the address order of the heap.
#include "shapes.h"
static void add(river::processor &p, const Shape &s, river::path_type t) { p.add_path(to_paths(s), t); }
extern "C" void harness(void) {
  static const int A[] = {T_RECT, T_DIAMOND, T_RING, T_U}, Bs[] = {T_RECT, T_DIAMOND, T_L, T_BOW};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  long hist = rs_h_choice("hist", 0, 5);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = 3, oy = -5;
  Shape s = place(tmpl(a), 1, ox, oy, false), c = place(tmpl(b), 1, ox + dx, oy + dy, hist & 1);
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q);
  Claims cl;
  rs_h_heap(hist == 4);
  for (int k = 0; k < 8; k++) {
    int f = k % 4, o2 = (k + k / 4) % 4, o1 = (o2 + 1 + hist + k / 4) % 4;
    auto F = FILLS[f], F1 = FILLS[(f + (hist == 2 ? 1 : 0)) % 4];
    river::processor pr;
    river::paths in_s = to_paths(s), in_c = to_paths(c), scratch, out, sec;
    size_t n_s = in_s[0].data.size();
    if (hist == 5) {  // another processor is half way through different work
      river::processor other;
      add(other, c, river::path_type::subject);
      pr.add_path(in_s, river::path_type::subject);
      add(other, s, river::path_type::clip);
      pr.add_path(in_c, river::path_type::clip);
      other.process(OPS[o1], F1, scratch);
      pr.process(OPS[o2], F, out);
    } else if (hist == 3) {  // process before the clip paths arrive
      pr.add_path(in_s, river::path_type::subject);
      pr.process(OPS[o1], F1, scratch);
      pr.add_path(in_c, river::path_type::clip);
      pr.process(OPS[o2], F, out);
    } else {
      pr.add_path(in_s, river::path_type::subject);
      pr.add_path(in_c, river::path_type::clip);
      pr.process(OPS[o1], F1, scratch);
      if (hist == 1) pr.process(OPS[(o1 + 1) % 4], F1, sec);
      pr.process(OPS[o2], F, out);
    }
    Reader r, r1;
    read_paths(out, r);
    read_paths(scratch, r1);
    std::string m = std::string(OPN[o1]) + " then " + OPN[o2] + "/" + FILLN[f] + ": ";
    cl.add((m + "second result").c_str(), iff(combine(filled(ws, F), filled(wc, F), OPS[o2]), inside_odd(r.out, q)));
    if (hist == 3) cl.add((m + "first result").c_str(), iff(combine(filled(ws, F1), B::of(false), OPS[o1]), inside_odd(r1.out, q)));
    else if (hist == 5) cl.add((m + "other processor").c_str(), iff(combine(filled(wc, F1), filled(ws, F1), OPS[o1]), inside_odd(r1.out, q)));
    else cl.add((m + "first result").c_str(), iff(combine(filled(ws, F1), filled(wc, F1), OPS[o1]), inside_odd(r1.out, q)));
    cl.add((m + "inputs untouched").c_str(), in_s[0].data.size() == n_s);
    B keep = B::of(true);
    for (size_t i = 0; i < s[0].size() && in_s[0].data.size() == n_s; i++) keep &= eq(in_s[0].data[2 * i], s[0][i].x) & eq(in_s[0].data[2 * i + 1], s[0][i].y);
    cl.add((m + "input coordinates untouched").c_str(), keep);
    rs_h_observe("n", r.out.size());
  }
  cl.settle("history");
}
