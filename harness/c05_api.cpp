// C05: reading/writing through callbacks gives exactly what the container interface gives.
#include "shapes.h"
struct Ev { int kind; P2 from, p; };
struct Log { std::vector<Ev> ev; void *self = nullptr; bool user_ok = true; };
static Log *expect_user;
static void lg_move(path_moveto_func_para) { auto l = (Log *)user; if (l != expect_user) { rs_h_fail("user pointer"); } l->ev.push_back({0, {from.x, from.y}, {to.x, to.y}}); }
static void lg_line(path_lineto_func_para) { auto l = (Log *)user; if (l != expect_user) { rs_h_fail("user pointer"); } l->ev.push_back({1, {from.x, from.y}, {to.x, to.y}}); }
static void lg_cubic(path_cubicto_func_para) { auto l = (Log *)user; if (l != expect_user) { rs_h_fail("user pointer"); } (void)ctrl1; (void)ctrl2; l->ev.push_back({2, {from.x, from.y}, {to.x, to.y}}); }
static void reader(read_path_func_para) {
  auto ps = (const Shape *)paths;
  for (auto &p : *ps) {
    P2 last{0, 0};
    for (size_t i = 0; i < p.size(); i++) {
      river::point f(last.x, last.y), t(p[i].x, p[i].y);
      if (i == 0) segment_funcs.move_to(f, t, user);
      else segment_funcs.line_to(f, t, user);
      last = p[i];
    }
  }
}
extern "C" void harness(void) {
  static const int A[] = {T_RECT, T_RING, T_DIAMOND, T_BOW}, Bs[] = {T_DIAMOND, T_RECT, T_OVER, T_U};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  long mode = rs_h_choice("mode", 0, 2);
  double dx = rs_h_dyadic("dx", -13, 13, 0), dy = rs_h_dyadic("dy", -13, 13, 0);
  double ox = rs_h_dyadic("ox", -(1 << 20), 1 << 20, 0), oy = rs_h_dyadic("oy", -(1 << 20), 1 << 20, 0);
  Shape s = place(tmpl(a), 1, ox, oy, false), c = place(tmpl(b), 1, ox + dx, oy + dy, false);
  Claims cl;
  {
    river::processor p0;
    p0.add_path(to_paths(s), river::path_type::subject);
    p0.add_path(to_paths(c), river::path_type::clip);
    river::paths none;
    p0.process(river::clip_type::none, FILLS[mode], none);
    cl.add("the empty operation produces nothing", none.empty());
  }
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 4; f++) {
      river::processor p1, p2;
      p1.add_path(to_paths(s), river::path_type::subject);
      p1.add_path(to_paths(c), river::path_type::clip);
      if (mode == 0) {
        p2.add_path(to_paths(s), river::path_type::subject);
        p2.add_path(to_paths(c), river::path_type::clip);
      } else {
        p2.add_path(reader, &s, river::path_type::subject);
        p2.add_path(reader, &c, river::path_type::clip);
      }
      std::string m = std::string(OPN[o]) + "/" + FILLN[f] + ": ";
      river::paths o1;
      if (mode == 2) { o1.emplace_back(); o1.back().moveto(1, 2); o1.back().lineto(3, 4); }  // earlier content stays
      size_t pre = o1.size();
      p1.process(OPS[o], FILLS[f], o1);
      Log l1, l2;
      river::path_traverse_funcs fs;
      fs.move_to = lg_move; fs.line_to = lg_line; fs.cubic_to = lg_cubic;
      if (pre) {
        cl.add((m + "existing output paths are kept").c_str(), o1.size() >= 1 && o1[0].data.size() == 4);
        if (o1.size() < 1 || o1[0].data.size() != 4) continue;
      }
      expect_user = &l1;
      for (size_t i = pre; i < o1.size(); i++) o1[i].traverse(fs, &l1);
      expect_user = &l2;
      p2.process(OPS[o], FILLS[f], fs, &l2);
      bool same_n = l1.ev.size() == l2.ev.size();
      cl.add((m + "same number of commands").c_str(), same_n);
      rs_h_observe("n", l1.ev.size());
      if (!same_n) continue;
      P2 last{0, 0};
      for (size_t i = 0; i < l1.ev.size(); i++) {
        Ev &x = l1.ev[i], &y = l2.ev[i];
        cl.add((m + "same command").c_str(), x.kind == y.kind);
        cl.add((m + "same point").c_str(), eq(x.p.x, y.p.x) & eq(x.p.y, y.p.y));
        if (y.kind) cl.add((m + "from is the previous point").c_str(), eq(y.from.x, last.x) & eq(y.from.y, last.y));
        last = y.p;
      }
    }
  cl.settle("api");
}
