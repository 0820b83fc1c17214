// C09: make_path on arbitrary bytes: exactly the longest well-formed command prefix, never a crash.
#include "geo.h"
#include <cstdio>
#include <cstring>
#ifndef NB
#define NB 3
#endif
#ifndef PRE
#define PRE "", "m1 2", "m1 2l", "m", "m 3", "m0 0c1 2 3 4 5 ", "l 1 2", "m1 2 a 1 2 3"
#endif
static const char *PREFIX[] = {PRE};
// ---- reference reader, written from the documented grammar ----
struct Ref {
  const char *s;
  void skip() { while (*s == ' ' || (*s >= '\t' && *s <= '\r')) s++; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
  bool word(const char *w) {
    const char *p = s;
    for (; *w; w++, p++) if (low(*p) != *w) return false;
    s = p;
    return true;
  }
  // kind: 0 finite, 1 nan, 2 inf
  bool num(double &v, int &kind) {
    skip();
    const char *b = s;
    bool neg = false;
    kind = 0;
    v = 0;
    if (*s == '+' || *s == '-') neg = *s++ == '-';
    int n = 0, f = 0;
    while (dig(*s)) { v = v * 10 + (*s++ - '0'); n++; }
    if (!n) {
      if (word("nan")) {
        kind = 1;
        if (*s == '(') { const char *p = s; while (*p && *p != ')') p++; if (*p != ')') { s = b; return false; } s = p + 1; }
        return true;
      }
      if (word("inf")) { word("inity"); kind = neg ? 3 : 2; return true; }
    }
    double sc = 1;
    if (*s == '.') {
      const char *p = s + 1;
      while (dig(*p)) { v = v * 10 + (*p++ - '0'); sc = sc * 10; f++; }
      if (!n && !f) { s = b; return false; }
      s = p;
    } else if (!n) { s = b; return false; }
    if (*s == 'e' || *s == 'E') {
      const char *p = s + 1;
      bool en = false;
      if (*p == '+' || *p == '-') en = *p++ == '-';
      if (dig(*p)) {
        int e = 0;
        while (dig(*p)) e = e * 10 + (*p++ - '0');
        s = p;
        rs_h_assume(e <= 290);  // numbers outside the range of double are not claimed
        double t = 1;
        for (int i = 0; i < e; i++) t = t * 10;
        if (en) sc = sc * t;
        else v = v * t;
      }
    }
    v = v / sc;
    if (neg) v = -v;
    return true;
  }
};
struct Num { double v; int kind; };
struct Cmd { char c; Num n[6]; };
struct R { std::string k; std::vector<double> d; };
extern "C" void harness(void) {
  char b[64];
  int n = 0;
#ifdef MUT  // a well-formed text with arbitrary bytes in place of one (or between two) of its characters
  static const char *BASE[] = {"m1 2l-3.5 4 c5 6 7 8 9 1e1l2 3", "m 1 2 a1 2 3 4 l5 6m7 8 l9 .5"};
  const char *base = BASE[rs_h_choice("base", 0, 1)];
  long len = strlen(base), pos = rs_h_choice("pos", 0, 29);
  if (pos > len) return rs_h_abandon();
  bool ins = rs_h_choice("insert", 0, 1);
  for (long i = 0; i < pos; i++) b[n++] = base[i];
  for (int i = 0; i < MUT; i++) {
    char nm[8];
    snprintf(nm, 8, "b%d", i);
    b[n++] = (char)rs_h_byte(nm, 0, 255);
  }
  for (long i = pos + (ins ? 0 : 1); i < len; i++) b[n++] = base[i];
#else
  int pre = rs_h_choice("pre", 0, (long)(sizeof PREFIX / sizeof *PREFIX) - 1);
  for (const char *p = PREFIX[pre]; *p; p++) b[n++] = *p;
  for (int i = 0; i < NB; i++) {
    char nm[8];
    snprintf(nm, 8, "b%d", i);
    b[n++] = (char)rs_h_byte(nm, 0, 255);
  }
#endif
  b[n] = 0;
  river::paths ps = river::make_path(b);
  std::vector<Cmd> cmds;
  Ref r{b};
  for (;;) {
    r.skip();
    Cmd c;
    int k = *r.s == 'm' || *r.s == 'l' ? 2 : *r.s == 'a' ? 4 : *r.s == 'c' ? 6 : 0;
    if (!k) break;
    c.c = *r.s++;
    bool ok = true;
    for (int i = 0; i < k && ok; i++) ok = r.num(c.n[i].v, c.n[i].kind);
    if (!ok) break;
    cmds.push_back(c);
  }
  std::vector<std::vector<Num>> data;
  std::vector<std::string> kinds;
  for (auto &c : cmds) {
    if (c.c == 'm') { data.emplace_back(); kinds.emplace_back(); }
    if (data.empty() || c.c == 'a') continue;
    kinds.back().push_back(c.c);
    for (int j = 0; j < (c.c == 'c' ? 6 : 2); j++) data.back().push_back(c.n[j]);
  }
  Claims cl;
  rs_h_observe("paths", ps.size());
  cl.add("one path per move command", ps.size() == data.size());
  if (ps.size() == data.size())
    for (size_t i = 0; i < ps.size(); i++) {
      R g;
      river::path_traverse_funcs f;
      f.move_to = [](path_moveto_func_para) { auto r = (R *)user; r->k.push_back('m'); r->d.push_back(to.x); r->d.push_back(to.y); };
      f.line_to = [](path_lineto_func_para) { auto r = (R *)user; r->k.push_back('l'); r->d.push_back(to.x); r->d.push_back(to.y); };
      f.cubic_to = [](path_cubicto_func_para) {
        auto r = (R *)user;
        r->k.push_back('c');
        for (auto p : {ctrl1, ctrl2, to}) { r->d.push_back(p.x); r->d.push_back(p.y); }
      };
      ps[i].traverse(f, &g);
      cl.add("the commands in order", g.k == kinds[i]);
      bool nn = g.d.size() == data[i].size();
      cl.add("the right number of coordinates", nn);
      for (size_t j = 0; nn && j < g.d.size(); j++) {
        double v = g.d[j], w = data[i][j].v;
        int kd = data[i][j].kind;
        if (kd == 1) cl.add("nan", v != v);
        else if (kd) cl.add("infinity", kd == 2 ? v > 1e308 : v < -1e308);
        else {
          double e = v - w, m = (w < 0 ? -w : w) * 1e-9;
          cl.add("the coordinates", le(e, m) & le(-e, m));
        }
      }
    }
  cl.settle("bytes");
}
