// C07: any finite input - degenerate, self-touching, empty - is processed without
// crashing, hanging or throwing, and the output is finite and inside the input's box.
#include "geo.h"
#include <cmath>
#ifndef GRID
#define GRID 3
#endif
#ifndef NS
#define NS 3
#define NC 2
#endif
extern "C" void harness(void) {
  Shape s(1), c(1);
  char nm[8];
  for (int i = 0; i < NS; i++) {
    snprintf(nm, 8, "sx%d", i); double x = rs_h_dyadic(nm, 0, GRID, 0);
    snprintf(nm, 8, "sy%d", i); double y = rs_h_dyadic(nm, 0, GRID, 0);
    s[0].push_back({x, y});
  }
  for (int i = 0; i < NC; i++) {
    snprintf(nm, 8, "cx%d", i); double x = rs_h_dyadic(nm, 0, GRID, 0);
    snprintf(nm, 8, "cy%d", i); double y = rs_h_dyadic(nm, 0, GRID, 0);
    c[0].push_back({x, y});
  }
  Claims cl;
  for (int o = 0; o < 4; o++) {
    int f = o;
    river::processor pr;
    pr.add_path(to_paths(s), river::path_type::subject);
    if (NC) pr.add_path(to_paths(c), river::path_type::clip);
    river::paths out;
    pr.process(OPS[o], FILLS[f], out);
    Reader r;
    read_paths(out, r);
    for (auto &p : r.out)
      for (auto &v : p) {
        cl.add("output is finite", within(v.x, -1e300, 1e300) & within(v.y, -1e300, 1e300));
        cl.add("output stays in the input's box", ge(v.x, -1e-9) & le(v.x, GRID + 1e-9) & ge(v.y, -1e-9) & le(v.y, GRID + 1e-9));
      }
    rs_h_observe("n", r.out.size());
  }
  cl.settle("safe");
}
