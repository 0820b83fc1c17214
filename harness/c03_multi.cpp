// C03: several contours of one role add up (winding numbers), under every fill rule.
#include "shapes.h"
static Shape cat(const Shape &a, const Shape &b) { Shape r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
extern "C" void harness(void) {
  long v = rs_h_choice("v", 0, rs_h_tier() ? 9 : 5);
  bool three = v < 2;            // a third contour of the same role: one inside another, and one moving
  if (three) v = v ? 2 : 0;
  else v -= 2;
  bool ra = rs_h_choice("ra", 0, 1), rb = rs_h_choice("rb", 0, 1);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  Shape a = place(tmpl(v & 1 ? T_DIAMOND : T_RECT), 1, ox, oy, ra), b = place(tmpl(v & 4 ? T_L : T_RECT), 1, ox + dx, oy + dy, rb);
  bool moving_clip = v & 2;
  if (three) {
    a = place({rectp(0, 0, 16, 8), rectp(2, 2, 4, 4)}, 1, ox, oy, ra);
    b = place(tmpl(T_TALL), 1, ox + dx, oy + dy, rb);
  }
  Shape s, c;
  if (moving_clip) { s = place(tmpl(T_TALL), 1, ox + 2, oy - 2, false); c = cat(a, b); }
  else { s = cat(a, b); c = place(tmpl(T_TALL), 1, ox + 2, oy - 2, false); }
  P2 q = query_point(30);
  q.x = q.x + ox;
  q.y = q.y + oy;
  Wind ws = winding(s, q), wc = winding(c, q);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor pr;
      // the two contours arrive in separate calls, interleaved with the other role
      auto two = moving_clip ? river::path_type::clip : river::path_type::subject, one = moving_clip ? river::path_type::subject : river::path_type::clip;
      pr.add_path(to_paths(a), two);
      pr.add_path(to_paths(moving_clip ? s : c), one);
      pr.add_path(to_paths(b), two);
      river::paths out;
      pr.process(OPS[o], FILLS[f], out);
      Reader r;
      read_paths(out, r);
      B want = combine(filled(ws, FILLS[f]), filled(wc, FILLS[f]), OPS[o]);
      rs_h_observe("n", r.out.size());
      cl.add((std::string("region ") + OPN[o] + "/" + FILLN[f]).c_str(), iff(want, inside_odd(r.out, q)));
    }
  cl.settle("region");
}
