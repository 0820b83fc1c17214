// C09: make_path turns well-formed text into exactly the described commands.
// Structure (commands, number syntax, white space) is forked, digits are symbolic.
#include "geo.h"
#include <cstdio>
struct Txt {
  char b[160];
  int n = 0;
  void c(char x) { b[n++] = x; }
};
static int cnt;
static char first_digit = '0';
static double digit(Txt &t) {
  char nm[8];
  snprintf(nm, 8, "d%d", cnt++);
  unsigned char d = rs_h_byte(nm, first_digit, '9');
  t.c((char)d);
  return d - '0';
}
// one number in syntax `k`; returns its value
static double number(Txt &t, int k) {
  double v;
  switch (k) {
  case 0: return digit(t);
  case 1: t.c('-'); return -digit(t);
  case 2: v = digit(t); v = v * 10 + digit(t); return v;
  case 3: v = digit(t); t.c('.'); v = v + digit(t) / 10; return v;
  case 4: t.c('-'); t.c('.'); v = digit(t) / 10; return -(v + digit(t) / 100);
  case 5: t.c('+'); v = digit(t); t.c('e'); t.c('2'); return v * 100;
  case 6: v = digit(t); t.c('.'); t.c('e'); t.c('-'); t.c('1'); return v / 10;
  default: v = digit(t); v = v * 10 + digit(t); v = v * 10 + digit(t); t.c('.'); v = v + digit(t) / 10; v = v + digit(t) / 100; return v;
  }
}
static void space(Txt &t, int k) {
  if (k == 0) t.c(' ');
  if (k == 1) { t.c('\t'); t.c(' '); }
  if (k == 2) { t.c('\n'); t.c('\r'); t.c('\v'); t.c('\f'); }
}
struct Cmd { char c; P2 p[3]; };
extern "C" void harness(void) {
  cnt = 0;
  Txt t;
  // mode 0: all command sequences and tails; mode 1: all number and white-space layouts
  bool deep = rs_h_tier();
  int mode = rs_h_choice("mode", 0, 1);
  int ncmd = rs_h_choice("ncmd", 0, mode == 0 ? (deep ? 4 : 3) : (deep ? 2 : 1));
  int sep = mode == 0 ? 0 : rs_h_choice("sep", 0, 2);      // white space between numbers
  int tight = rs_h_choice("tight", 0, 1);                  // none around command letters
  int lead = mode == 0 ? 0 : rs_h_choice("lead", 0, 1);
  int numk = mode == 0 ? 0 : rs_h_choice("num", 0, 7);
  // a leading zero makes the number parser fork; mode 1 covers it
  first_digit = mode == 0 ? '1' : '0';
  std::vector<Cmd> cmds;
  if (lead) space(t, sep);
  for (int i = 0; i < ncmd; i++) {
    char nm[8];
    snprintf(nm, 8, "c%d", i);
    if (i > 0) first_digit = '1';
    int k = rs_h_choice(nm, 0, 3);
    Cmd c;
    c.c = "mlca"[k];
    int np = k == 2 ? 3 : k == 3 ? 2 : 1;
    t.c(c.c);
    if (!tight) space(t, sep);
    for (int j = 0; j < np; j++) {
      c.p[j].x = number(t, i == 0 ? numk : (numk + i + j) % 3);
      space(t, sep);
      if (j != 1) first_digit = '1';
      c.p[j].y = number(t, j == 1 ? numk : 0);
      if (j + 1 < np || !tight) space(t, sep);
    }
    cmds.push_back(c);
  }
  // what may follow: nothing, white space, or something that is not a command
  int tail = rs_h_choice("tail", 0, mode == 0 ? 7 : 1);
  static const char *T[] = {"", " \n", "x", "l", "m 1", "l 1 z", "c 1 2 3 4 5", "c 1 2 3 4 5 6x m"};
  if (tail >= 2 && !cmds.empty()) t.c(' ');
  for (const char *p = T[tail]; *p; p++) t.c(*p);
  if (tail == 7) cmds.push_back({'c', {{1, 2}, {3, 4}, {5, 6}}});
  t.c(0);
  river::paths ps = river::make_path(t.b);
  // expected contents
  std::vector<std::vector<double>> data;
  std::vector<std::string> kinds;
  for (auto &c : cmds) {
    if (c.c == 'm') { data.emplace_back(); kinds.emplace_back(); }
    if (data.empty() || c.c == 'a') continue;
    kinds.back().push_back(c.c);
    for (int j = 0; j < (c.c == 'c' ? 3 : 1); j++) { data.back().push_back(c.p[j].x); data.back().push_back(c.p[j].y); }
  }
  Claims cl;
  rs_h_observe("paths", ps.size());
  cl.add("one path per move command", ps.size() == data.size());
  if (ps.size() == data.size())
    for (size_t i = 0; i < ps.size(); i++) {
      struct R { std::string k; std::vector<double> d; } r;
      river::path_traverse_funcs f;
      f.move_to = [](path_moveto_func_para) { auto r = (R *)user; r->k.push_back('m'); r->d.push_back(to.x); r->d.push_back(to.y); };
      f.line_to = [](path_lineto_func_para) { auto r = (R *)user; r->k.push_back('l'); r->d.push_back(to.x); r->d.push_back(to.y); };
      f.cubic_to = [](path_cubicto_func_para) {
        auto r = (R *)user;
        r->k.push_back('c');
        for (auto p : {ctrl1, ctrl2, to}) { r->d.push_back(p.x); r->d.push_back(p.y); }
      };
      ps[i].traverse(f, &r);
      cl.add("the commands in order", r.k == kinds[i]);
      bool n = r.d.size() == data[i].size();
      cl.add("the right number of coordinates", n);
      for (size_t j = 0; n && j < r.d.size(); j++) {
        double e = r.d[j] - data[i][j];
        cl.add("the coordinates", le(e, 1e-9) & le(-e, 1e-9));
      }
    }
  cl.settle("text");
}
