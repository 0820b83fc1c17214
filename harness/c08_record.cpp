// C08: a path replays exactly the commands recorded into it, for every double.
#include "geo.h"
struct Ev { int kind; P2 v[4]; };
static std::vector<Ev> got;
static int cookie;
static bool cookie_ok = true;
static void mv(path_moveto_func_para) { if (user != &cookie) cookie_ok = false; got.push_back({0, {{from.x, from.y}, {to.x, to.y}, {0, 0}, {0, 0}}}); }
static void ln(path_lineto_func_para) { if (user != &cookie) cookie_ok = false; got.push_back({1, {{from.x, from.y}, {to.x, to.y}, {0, 0}, {0, 0}}}); }
static void cb(path_cubicto_func_para) { if (user != &cookie) cookie_ok = false; got.push_back({2, {{from.x, from.y}, {ctrl1.x, ctrl1.y}, {ctrl2.x, ctrl2.y}, {to.x, to.y}}}); }
static double fp(const char *p, int i) { char b[16]; snprintf(b, 16, "%s%d", p, i); return rs_h_fp(b); }
extern "C" void harness(void) {
  got.clear();
  cookie_ok = true;
  int n = rs_h_choice("n", 0, rs_h_tier() ? 5 : 4);
  int mask = rs_h_choice("mask", 0, 7);   // which callbacks are given
  int moved = rs_h_choice("moved", 0, 2); // read the path itself, a moved-to path, or the path twice
  river::path p;
  std::vector<Ev> want;
  P2 last{0, 0};
  for (int i = 0; i < n; i++) {
    char nm[8];
    snprintf(nm, 8, "k%d", i);
    int k = rs_h_choice(nm, 0, 4);
    double x = fp("x", i), y = fp("y", i);
    P2 to{x, y};
    if (k == 0) { p.moveto(x, y); want.push_back({0, {last, to, {0, 0}, {0, 0}}}); }
    if (k == 1) { p.lineto(x, y); want.push_back({1, {last, to, {0, 0}, {0, 0}}}); }
    if (k == 2) {
      double a = fp("a", i), b = fp("b", i), c = fp("c", i), d = fp("d", i);
      p.cubicto(river::point(a, b), river::point(c, d), river::point(x, y));
      want.push_back({2, {last, {a, b}, {c, d}, to}});
    }
    if (k == 3) { p.moveto(river::point(x, y)); want.push_back({0, {last, to, {0, 0}, {0, 0}}}); }
    if (k == 4) { p.lineto(river::point(x, y)); want.push_back({1, {last, to, {0, 0}, {0, 0}}}); }
    last = to;
  }
  river::path_traverse_funcs f;
  if (mask & 1) f.move_to = mv;
  if (mask & 2) f.line_to = ln;
  if (mask & 4) f.cubic_to = cb;
  if (moved == 1) {
    river::path q(std::move(p));
    q.traverse(f, &cookie);
    std::vector<Ev> keep = got;
    river::path_traverse_funcs all;
    all.move_to = mv; all.line_to = ln; all.cubic_to = cb;
    p.traverse(all, &cookie);
    check("a moved-from path is empty", got.size() == keep.size());
  } else {
    p.traverse(f, &cookie);
    if (moved == 2) { got.clear(); p.traverse(f, &cookie); }
  }
  size_t j = 0;
  Claims cl;
  cl.add("user pointer is handed through", cookie_ok);
  for (auto &w : want) {
    if (!(mask & (1 << w.kind))) continue;
    if (j >= got.size()) { cl.add("every recorded command is replayed", false); break; }
    Ev &g = got[j++];
    cl.add("commands come back in order", g.kind == w.kind);
    for (int k = 0; k < 4; k++) cl.add("coordinates come back unchanged", same(g.v[k].x, w.v[k].x) & same(g.v[k].y, w.v[k].y));
  }
  cl.add("nothing is invented", j == got.size());
  rs_h_observe("n", got.size());
  cl.settle("record");
}
