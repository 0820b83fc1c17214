// Curved operands: the way they are written (MODE 0), the interface they pass through (MODE 1)
// and earlier calls (MODE 2) do not matter.
#include "cgeo.h"
#ifndef MODE
#define MODE 0
#endif
static Seg sub(const Seg &g, bool second) {  // half of a piece
  auto mid = [](P2 a, P2 b) { return P2{(a.x + b.x) / 2, (a.y + b.y) / 2}; };
  P2 a = mid(g.p[0], g.p[1]), b = mid(g.p[1], g.p[2]), c = mid(g.p[2], g.p[3]), ab = mid(a, b), bc = mid(b, c), m = mid(ab, bc);
  if (!g.curve) m = mid(g.p[0], g.p[3]);
  if (second) return {{m, bc, c, g.p[3]}, g.curve};
  return {{g.p[0], a, ab, m}, g.curve};
}
static CShape rewrite(const CShape &s, long how) {
  CShape r = s;
  for (auto &c : r)
    switch (how) {
    case 0: std::rotate(c.begin(), c.begin() + 1, c.end()); break;                       // another start
    case 1: { std::vector<Seg> v; for (auto &g : c) { v.push_back(sub(g, false)); v.push_back(sub(g, true)); } c = v; break; }  // cut pieces
    case 2: c.insert(c.begin() + 1, Seg{{c[0].p[3], c[0].p[3], c[0].p[3], c[0].p[3]}, false}); break;  // repeated point
    case 3: { std::vector<Seg> v; for (auto &g : c) { Seg h = g; h.curve = true; v.push_back(h); } c = v; break; }  // straight sides as cubics
    default: break;
    }
  return r;
}
static void feed(read_path_func_para) { for (auto &p : *(const river::paths *)paths) p.traverse(segment_funcs, user); }
// writing callbacks: what arrives goes into a container, where it starts is checked
struct Sink { river::paths out; double x = 0, y = 0; bool from_ok = true; int n[3] = {0, 0, 0}; };
static Sink *sink_of(void *user, const river::point &from, const river::point &to, int kind) {
  Sink *k = (Sink *)user;
  if (kind && (from.x != k->x || from.y != k->y)) k->from_ok = false;
  k->x = to.x; k->y = to.y; k->n[kind]++;
  return k;
}
static void w_move(path_moveto_func_para) { auto k = sink_of(user, from, to, 0); k->out.emplace_back(); k->out.back().moveto(to); }
static void w_line(path_lineto_func_para) { auto k = sink_of(user, from, to, 1); if (!k->out.empty()) k->out.back().lineto(to); }
static void w_cubic(path_cubicto_func_para) { auto k = sink_of(user, from, to, 2); if (!k->out.empty()) k->out.back().cubicto(ctrl1, ctrl2, to); }
extern "C" void harness(void) {
  static const int A[] = {1, 2, 0, 4}, Bs[] = {5, 8, 0, 7};
  int a = A[rs_h_choice("a", 0, rs_h_tier() ? 3 : 1)], b = Bs[rs_h_choice("b", 0, rs_h_tier() ? 3 : 1)];
  bool rv = rs_h_choice("rev", 0, 1);
  long how = rs_h_choice("how", 0, MODE == 0 ? 4 : MODE == 1 ? 1 : 4);
  int P = rs_h_tier() ? 6 : 2;
  double dx = rs_h_choice("dx", -P, P) * (8.0 / P) + 0.34375, dy = rs_h_choice("dy", -P, P) * (8.0 / P) + 0.203125;
  CShape s = moved(shape(a), 0, 0, rv), c = moved(shape(b), dx, dy, rv);
  double qx = rs_h_query("qx", -25 * 64, 25 * 64, 6);
  Claims cl;
  for (int o = 0; o < 4; o++)
    for (int f = 0; f < 3; f++) {
      using namespace river;
      processor pr;
      paths out, in_s = paths_of(s), in_c = paths_of(c), scratch;
      std::string n = std::string(OPN[o]) + "/" + FILLN[f] + ": ";
      auto O1 = OPS[(o + 1 + f) % 4];
      auto F1 = FILLS[(f + 1) % 4];
      if (MODE == 0) {
        in_s = paths_of(rewrite(s, how));
        in_c = paths_of(rewrite(c, (how + o) % 4));
        if (how == 4) { pr.add_path(in_c, path_type::clip); pr.add_path(in_s, path_type::subject); }
        else { pr.add_path(in_s, path_type::subject); pr.add_path(in_c, path_type::clip); }
        pr.process(OPS[o], FILLS[f], out);
      } else if (MODE == 1) {
        pr.add_path(feed, &in_s, path_type::subject);
        pr.add_path(feed, &in_c, path_type::clip);
        path_traverse_funcs w;
        w.move_to = w_move; w.line_to = w_line; w.cubic_to = w_cubic;
        Sink k;
        pr.process(OPS[o], FILLS[f], w, &k);
        cl.add((n + "every command starts at the end of the previous one").c_str(), k.from_ok);
        out = std::move(k.out);
        for (int mask = 0; mask < 7; mask++) {  // some callbacks are not given
          if (mask != (o + f) % 7 && mask != (o + 4 * f) % 7) continue;
          processor pm;
          pm.add_path(in_s, path_type::subject);
          pm.add_path(in_c, path_type::clip);
          path_traverse_funcs some;
          if (mask & 1) some.move_to = w_move;
          if (mask & 2) some.line_to = w_line;
          if (mask & 4) some.cubic_to = w_cubic;
          Sink m;
          pm.process(OPS[o], FILLS[f], some, &m);
          for (int i = 0; i < 3; i++) cl.add((n + "callbacks that are not given do not matter to the others").c_str(), m.n[i] == (mask >> i & 1 ? k.n[i] : 0));
        }
        processor p2;
        p2.add_path(in_s, path_type::subject);
        p2.add_path(in_c, path_type::clip);
        if (how) { scratch.emplace_back(); scratch.back().moveto(1, 2); }
        p2.process(OPS[o], FILLS[f], scratch);
        bool ok = scratch.size() == out.size() + how;
        for (size_t i = 0; ok && i < out.size(); i++)
          ok = out[i].element_types == scratch[i + how].element_types && out[i].data == scratch[i + how].data;
        cl.add((n + "callbacks and containers give the same commands").c_str(), ok);
      } else {
        if (how == 4) {
          pr.add_path(in_s, path_type::subject);
          pr.process(O1, F1, scratch);
          claim_result(cl, n + "before the clip arrived: ", s, {}, scratch, O1, F1, qx);
          pr.add_path(in_c, path_type::clip);
        } else {
          pr.add_path(in_s, path_type::subject);
          pr.add_path(in_c, path_type::clip);
          for (int k = 0; k <= how % 2; k++) {
            scratch.clear();
            pr.process(how < 2 ? O1 : OPS[o], how < 2 ? F1 : FILLS[f], scratch);
          }
        }
        pr.process(OPS[o], FILLS[f], out);
      }
      claim_result(cl, n, s, c, out, OPS[o], FILLS[f], qx);
    }
  cl.settle("curved operands");
}
