// Everything the library allocates is given back when the processor and the caller's
// containers are gone, whatever was added, however often it was processed.
#include "shapes.h"
static void sink_m(path_moveto_func_para) { (void)from; (void)to; ++*(int *)user; }
static void sink_l(path_lineto_func_para) { (void)from; (void)to; ++*(int *)user; }
static void sink_c(path_cubicto_func_para) { (void)from; (void)ctrl1; (void)ctrl2; (void)to; ++*(int *)user; }
static void feed(read_path_func_para) { for (auto &p : *(const river::paths *)paths) p.traverse(segment_funcs, user); }
static river::paths curved() {
  river::paths r(1);
  r[0].moveto(-3, -3);
  r[0].cubicto(river::point(14, 0), river::point(-6, 8), river::point(9, 9));
  r[0].lineto(-3, 9);
  return r;
}
static void use(long what, const Shape &s, const Shape &c, int o, int f) {
  using namespace river;
  int n = 0;
  path_traverse_funcs w;
  w.move_to = sink_m; w.line_to = sink_l; w.cubic_to = sink_c;
  paths in_s = to_paths(s), in_c = to_paths(c), cv = curved();
  processor pr;
  switch (what) {
  case 0: { // once, into a container
    paths out;
    pr.add_path(in_s, path_type::subject); pr.add_path(in_c, path_type::clip);
    pr.process(OPS[o], FILLS[f], out);
    break;
  }
  case 1:  // callbacks on both sides
    pr.add_path(feed, &in_s, path_type::subject); pr.add_path(feed, &in_c, path_type::clip);
    pr.process(OPS[o], FILLS[f], w, &n);
    break;
  case 2: { // several times, more paths in between
    paths out;
    pr.add_path(in_s, path_type::subject);
    pr.process(OPS[o], FILLS[f], out);
    pr.add_path(in_c, path_type::clip);
    pr.process(OPS[(o + 1) % 4], FILLS[f], out);
    pr.process(OPS[o], FILLS[(f + 1) % 4], w, &n);
    break;
  }
  case 3:  // never processed, or nothing to process
    if (o & 1) pr.add_path(in_s, path_type::subject);
    else pr.process(OPS[o], FILLS[f], w, &n);
    break;
  case 4: { // no operation
    paths out;
    pr.add_path(in_s, path_type::subject); pr.add_path(in_c, path_type::clip);
    pr.process(clip_type::none, FILLS[f], out);
    break;
  }
  case 5: { // text, and moved paths
    paths t = make_path("m 0 0 l 8 0 c 9 3 9 6 8 8 l 0 8 z"), out;
    path p(std::move(t.empty() ? in_s[0] : t[0]));
    pr.add_path(in_c, path_type::clip);
    paths one;
    one.push_back(std::move(p));
    pr.add_path(one, path_type::subject);
    pr.process(OPS[o], FILLS[f], out);
    break;
  }
  default: { // curves
    paths out;
    pr.add_path(cv, what == 6 ? path_type::subject : path_type::clip);
    pr.add_path(in_s, what == 6 ? path_type::clip : path_type::subject);
    pr.process(OPS[o], FILLS[f], out);
    break;
  }
  }
}
extern "C" void harness(void) {
  static const int A[] = {T_RECT, T_DIAMOND, T_BOW, T_RING}, Bs[] = {T_RECT, T_UP, T_L, T_OVER};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 2)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  long what = rs_h_choice("what", 0, 7);
  double dx = 0, dy = 0;
  if (what < 5) { dx = rs_h_dyadic("dx", -13, 13, 0); dy = rs_h_dyadic("dy", -13, 13, 0); }
  else { dx = rs_h_choice("cx", -2, 2) * 4 + 0.40625; dy = rs_h_choice("cy", -2, 2) * 4 + 0.28125; }
  Shape s = place(tmpl(a), 1, what > 5 ? dx : 0, what > 5 ? dy : 0, false), c = place(tmpl(b), 1, dx, dy, true);
  use(what, s, c, 0, 0);  // whatever is allocated once and for all
  long before = rs_h_live();
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      use(what, s, c, o, f);
      check("all memory is given back", rs_h_live() == before);
    }
}
