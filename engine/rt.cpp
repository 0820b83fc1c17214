// Symbolic-execution runtime.
//
// One process run = one path.  The instrumented program is executed natively on
// concrete inputs while every value carries a symbolic expression; at each
// branch the solver is asked whether the other side is feasible for some value
// of the symbolic inputs, and if so the model becomes a new work item.  An
// assertion is decided by the solver over *all* inputs of the path (PC & !A).
// Work items are distributed over forked workers.
#include <z3++.h>
#include <gmpxx.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "arena.h"

typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" {
u64 rs_args[128], rs_ret[128];
void *rs_argfn;
u32 rs_retvalid;
extern const char rs_cov_names[];
extern const u64 rs_cov_n;
extern char *const rs_glob_ptr[];
extern const u64 rs_glob_size[];
extern const u64 rs_glob_n;
extern unsigned char *const rs_cov_ptr;
void harness(void);
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void die(const char *m) {
  fprintf(stderr, "rt: %s\n", m);
  _exit(70);
}

// ------------------------------------------------------------------ shared
struct Worker {
  char cur[1 << 15];      // inputs of the path being run
  volatile int running;   // 1 = inside the program under test
  volatile int reason;    // 1 = hang
  char lastmsg[512];
};
struct Shared {
  std::atomic<int> want;
  std::atomic<int> stop;
  std::atomic<u64> paths, branches, queries, sat, unsat, unknown, assertsSolver, assertsTrivial, assertsUnknown,
      inexactBranches, inexactAsserts, diverged, solverUs, concretized, assumeCut, forks, rangeDecided, maxDepth, solverTerms, mismatch, values, completed, pinned;
  std::atomic<u64> seen[1 << 16];  // hashes of the pinned inputs already queued
  Worker w[64];
  unsigned char cov[1];
};
static Shared *S;
static Worker *W;

// ------------------------------------------------------------------ items
typedef std::map<std::string, i64> Inputs;
struct Item {
  Inputs in;
  std::string dec;  // '0'/'1' per recorded branch
};
struct Violation {
  std::string msg;
  Inputs in;
  std::string kind;
};
struct Sample {
  Inputs in;
  std::vector<std::pair<std::string, double>> obs;
  u64 branches, queries;
};

// ------------------------------------------------------------------ options
static double optBudget = 120, optPathTimeout = 20;
static int optJobs = 8, optMaxViol = 1, optQueryMs = 20000, optSamples = 6;
static u64 optMaxPaths = ~0ull;
static int optTier = 0;
static bool optVerbose = false;

// ------------------------------------------------------------------ polynomials
typedef std::vector<std::pair<u32, int>> Mono;  // (atom, exponent), sorted by atom
typedef std::map<Mono, mpq_class> Poly;

enum Kind { K_REAL, K_BOOL, K_BV, K_FP, K_LAZY };
enum BOp { B_LIT, B_NOT, B_AND, B_OR, B_XOR, B_Z3, B_TRUE, B_FALSE };

struct Atom {
  std::string name;
  bool isInt = true;
  bool exactVal = true;  // val is exact
  mpq_class val;
  mpq_class lo, hi;  // valid when bounded
  bool bounded = false;
  z3::expr *e = nullptr;
  bool pinned = false;
  bool activated = true;
  int def = 0;       // 0 var, 1 defined atom
  // an atom u = 1/d with d linear: lead * leadVar + rest == d, leadVar above every variable of rest
  bool isInv = false;
  u32 leadVar = 0;
  mpq_class lead;
  Poly rest;
};

struct Node {
  Kind k;
  // real
  Poly p;
  bool exact = true;    // IEEE result provably equals p for every input in the declared box
  bool hasval = false;  // val known exactly
  mpq_class val;
  double dval = 0;      // concrete double seen
  // bool
  BOp op = B_TRUE;
  u32 f = 0;  // form id
  int mask = 0;  // bit0 '<', bit1 '=', bit2 '>'
  mpq_class t;
  u32 a = 0, b = 0;
  bool cb = false;  // concrete truth value
  // bv / fp / opaque bool
  z3::expr *e = nullptr;
  int bits = 0;
  u32 evE = 0; signed char evV = -1;
};
struct Form {
  Poly p;
  bool isInt;
  bool hasLo = false, hasHi = false, loS = false, hiS = false;
  mpq_class lo, hi;
  std::set<mpq_class> excl;
  z3::expr *e = nullptr;   // term of the form
  bool laurent = false;
  Mono den;                // positive multiplier (even powers) used for laurent forms
  mpq_class val; bool hasval = false;
};

static z3::context *Z = nullptr;
static z3::solver *slv = nullptr;
static int slvUses = 0;
static std::vector<Node> nodes;
static std::vector<Atom> atoms;
static std::vector<Form> forms;
static std::map<Poly, u32> formIdx;
static std::map<Poly, u32> realIdx[2];
static std::map<std::tuple<u32, int, mpq_class>, u32> litIdx;
struct Key5 {
  u32 op, a, b;
  u64 x, y;
  bool operator==(const Key5 &o) const { return op == o.op && a == o.a && b == o.b && x == o.x && y == o.y; }
};
struct Key5H { size_t operator()(const Key5 &k) const { u64 h = k.op * 0x9E3779B97F4A7C15ull; for (u64 v : {(u64)k.a, (u64)k.b, k.x, k.y}) h = (h ^ v) * 0xD6E8FEB86659FD93ull, h ^= h >> 32; return h; } };
static std::unordered_map<Key5, u32, Key5H> memo;  // per path: op + operands -> node
static u32 epoch = 1;                              // bumped whenever the path learns something
static u64 dbits(u32 id, double v) { u64 b = 0; if (!id) memcpy(&b, &v, 8); return b; }
static std::map<std::string, u32> atomIdx;
static std::map<unsigned, bool> knownZ3;  // z3 ast id -> decided value
static std::vector<z3::expr *> exprPool;
static bool anyPinned = false;
static Inputs curIn;
static Inputs declared;  // inputs declared on this path (value used)
static std::map<std::string, int> declKind;  // 0 int atom,1 bv,2 fp
static std::map<std::string, z3::expr *> declExpr;
static std::string expected, decisions;
static std::vector<Item> *outItems;
static std::vector<Violation> *outViol;
static std::vector<std::pair<std::string, double>> observed;
static jmp_buf pathEnd;
static bool divergedNow = false;
static bool pinnedPath = false;                 // every input but the query variables is fixed
static std::set<std::string> queryVars;
static u64 pathBranches, pathQueries;
static bool inPath = false;
static bool replayMode = false;

static z3::expr *keep(const z3::expr &e) {
  auto *p = new z3::expr(e);
  exprPool.push_back(p);
  return p;
}

static void timerOn() {
  struct itimerval it = {{0, 0}, {(long)optPathTimeout, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
}
static void timerOff() {
  struct itimerval it = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
}

static Mono monoMul(const Mono &a, const Mono &b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++, j++;
    }
  }
  return r;
}
static void addTo(Poly &r, const Poly &b, const mpq_class &k) {
  for (auto &m : b) {
    mpq_class &c = r[m.first];
    c += m.second * k;
    if (c == 0) r.erase(m.first);
  }
}
static Poly pmul(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a)
    for (auto &y : b) {
      Mono m = monoMul(x.first, y.first);
      mpq_class &c = r[m];
      c += x.second * y.second;
      if (c == 0) r.erase(m);
    }
  return r;
}
static Poly pconst(const mpq_class &c) {
  Poly p;
  if (c != 0) p[Mono()] = c;
  return p;
}
static bool isConst(const Poly &p, mpq_class *c = nullptr) {
  if (p.empty()) { if (c) *c = 0; return true; }
  if (p.size() == 1 && p.begin()->first.empty()) { if (c) *c = p.begin()->second; return true; }
  return false;
}
static mpq_class qpow(const mpq_class &b, int e) {
  mpq_class r = 1, x = e < 0 ? mpq_class(1 / b) : b;
  for (int i = 0; i < std::abs(e); i++) r *= x;
  return r;
}
static bool polyVal(const Poly &p, mpq_class &out) {
  out = 0;
  for (auto &m : p) {
    mpq_class t = m.second;
    for (auto &f : m.first) {
      Atom &a = atoms[f.first];
      if (!a.exactVal) return false;
      if (f.second < 0 && a.val == 0) return false;
      t *= qpow(a.val, f.second);
    }
    out += t;
  }
  return true;
}
static Poly substPinned(const Poly &p) {
  bool any = false;
  for (auto &m : p) for (auto &f : m.first) if (atoms[f.first].pinned) any = true;
  if (!any) return p;
  Poly r;
  for (auto &m : p) {
    mpq_class c = m.second;
    Mono mm;
    for (auto &f : m.first) {
      Atom &a = atoms[f.first];
      if (a.pinned && !(f.second < 0 && a.val == 0)) c *= qpow(a.val, f.second);
      else mm.push_back(f);
    }
    mpq_class &x = r[mm];
    x += c;
    if (x == 0) r.erase(mm);
  }
  return r;
}
static bool isPow2(const mpz_class &z) { return mpz_popcount(z.get_mpz_t()) == 1; }
// bound of |p| over the declared box; false if unbounded / not a plain polynomial over bounded ints
static bool polyBox(const Poly &p, mpq_class &lo, mpq_class &hi) {
  lo = hi = 0;
  for (auto &m : p) {
    mpq_class l = 1, h = 1;
    for (auto &f : m.first) {
      Atom &a = atoms[f.first];
      if (!a.bounded || f.second < 0) return false;
      mpq_class fl = a.lo, fh = a.hi;
      mpq_class pl, ph;
      if (f.second % 2 == 1 || fl >= 0) { pl = qpow(fl, f.second); ph = qpow(fh, f.second); }
      else if (fh <= 0) { pl = qpow(fh, f.second); ph = qpow(fl, f.second); }
      else { pl = 0; ph = qpow(-fl > fh ? mpq_class(-fl) : fh, f.second); }
      mpq_class c1 = l * pl, c2 = l * ph, c3 = h * pl, c4 = h * ph;
      l = std::min(std::min(c1, c2), std::min(c3, c4));
      h = std::max(std::max(c1, c2), std::max(c3, c4));
    }
    if (m.second > 0) { lo += m.second * l; hi += m.second * h; }
    else { lo += m.second * h; hi += m.second * l; }
  }
  return true;
}
static bool provablyExact(const Poly &p) {
  mpz_class den = 1;
  for (auto &m : p) {
    for (auto &f : m.first) if (!atoms[f.first].isInt) return false;
    if (!isPow2(m.second.get_den())) return false;
    if (m.second.get_den() > den) den = m.second.get_den();
  }
  mpq_class lo, hi;
  if (!polyBox(p, lo, hi)) return false;
  mpq_class b = std::max(mpq_class(abs(lo)), mpq_class(abs(hi))) * mpq_class(den);
  mpz_class lim = 1;
  lim <<= 53;
  return b <= mpq_class(lim);
}

// ------------------------------------------------------------------ node construction
static u32 addNode(Node &&n) {
  nodes.push_back(std::move(n));
  return nodes.size() - 1;
}
static bool anyInv = false;
// u * leadVar -> (1 - u * rest) / lead wherever u = 1/d occurs together with d's leading variable
static Poly reduceInv(const Poly &p) {
  Poly todo = p, done;
  int guard = 0;
  while (!todo.empty()) {
    auto it = std::prev(todo.end());
    Mono m = it->first;
    mpq_class c = it->second;
    todo.erase(it);
    const Atom *u = nullptr;
    u32 ua = 0;
    for (auto &f : m) {
      const Atom &a = atoms[f.first];
      if (!a.isInv || f.second <= 0) continue;
      for (auto &g : m) if (g.first == a.leadVar && g.second > 0) { u = &a; ua = f.first; }
      if (u) break;
    }
    if (!u || ++guard > 4000) {
      mpq_class &x = done[m];
      x += c;
      if (x == 0) done.erase(m);
      continue;
    }
    Mono base = monoMul(m, Mono{{std::min(ua, u->leadVar), -1}});
    base = monoMul(base, Mono{{std::max(ua, u->leadVar), -1}});
    c /= u->lead;
    Poly b, r;
    b[base] = c;
    addTo(todo, b, 1);
    for (auto &t : u->rest) r[monoMul(monoMul(t.first, Mono{{ua, 1}}), base)] = t.second * c;
    addTo(todo, r, -1);
  }
  return done;
}
// returns 0 when the polynomial is constant (value concrete)
static u32 mkReal(Poly p, bool exact, double dv) {
  if (anyPinned) p = substPinned(p);
  if (anyInv) p = reduceInv(p);
  mpq_class c;
  if (isConst(p, &c)) {
    if (std::isfinite(dv) && mpq_class(dv) != c) S->mismatch++;
    return 0;
  }
  if (exact && !provablyExact(p)) exact = false;
  auto &idx = realIdx[exact];
  auto it = idx.find(p);
  if (it != idx.end()) return it->second;
  Node n;
  n.k = K_REAL;
  n.exact = exact;
  n.hasval = polyVal(p, n.val);
  n.dval = dv;
  if (n.hasval && exact && std::isfinite(dv) && n.val != mpq_class(dv)) { S->mismatch++; n.exact = false; }
  n.p = p;
  u32 id = addNode(std::move(n));
  idx[p] = id;
  return id;
}
static Poly polyOf(u32 id, double v) {
  if (id) {
    if (anyPinned) return substPinned(nodes[id].p);
    return nodes[id].p;
  }
  return pconst(mpq_class(v));
}

static z3::expr atomExpr(u32 a) { return *atoms[a].e; }
static z3::expr monoTerm(const Mono &m, bool real) {
  z3::expr r = real ? Z->real_val(1) : Z->int_val(1);
  bool first = true;
  for (auto &f : m)
    for (int i = 0; i < f.second; i++) {
      z3::expr e = atomExpr(f.first);
      if (real && e.is_int()) e = z3::to_real(e);
      if (first) r = e, first = false;
      else r = r * e;
    }
  return r;
}
static z3::expr polyTerm(const Poly &p, bool real) {  // integer coefficients assumed when !real
  std::vector<z3::expr> ts;
  for (auto &m : p) {
    z3::expr c = real ? Z->real_val(m.second.get_str().c_str()) : Z->int_val(m.second.get_num().get_str().c_str());
    if (m.first.empty()) ts.push_back(c);
    else {
      z3::expr t = monoTerm(m.first, real);
      ts.push_back(m.second == 1 ? t : c * t);
    }
  }
  if (ts.empty()) return real ? Z->real_val(0) : Z->int_val(0);
  z3::expr r = ts[0];
  for (size_t i = 1; i < ts.size(); i++) r = r + ts[i];
  return r;
}

static u32 mkForm(const Poly &f) {
  auto it = formIdx.find(f);
  if (it != formIdx.end()) return it->second;
  Form F;
  F.p = f;
  F.isInt = true;
  for (auto &m : f)
    for (auto &x : m.first) {
      if (!atoms[x.first].isInt) F.isInt = false;
      if (x.second < 0) { F.isInt = false; F.laurent = true; }
    }
  mpq_class lo, hi;
  if (polyBox(f, lo, hi)) { F.hasLo = F.hasHi = true; F.lo = lo; F.hi = hi; }
  F.hasval = polyVal(f, F.val);
  forms.push_back(F);
  u32 id = forms.size() - 1;
  formIdx[f] = id;
  return id;
}
static int flipMask(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }

static u32 mkConstBool(bool v) { return v ? 1 : 2; }  // nodes 1 and 2

static int rangeMask(const Form &F, const mpq_class &t) {  // which signs of F - t are possible
  int m = 7;
  if (F.hasLo) {
    if (F.lo > t) m &= 4;
    else if (F.lo == t) m &= F.loS ? 4 : 6;
  }
  if (F.hasHi) {
    if (F.hi < t) m &= 1;
    else if (F.hi == t) m &= F.hiS ? 1 : 3;
  }
  if ((m & 2) && F.excl.count(t)) m &= 5;
  if ((m & 2) && F.isInt && t.get_den() != 1) m &= 5;
  return m;
}

// literal  p  rel  0
static u32 mkLit(Poly p, int mask, bool concrete, bool ex = true) {
  if (anyPinned) p = substPinned(p);
  mpq_class c;
  if (isConst(p, &c)) {
    bool v = c < 0 ? mask & 1 : c == 0 ? mask & 2 : mask & 4;
    return mkConstBool(v);
  }
  auto it = p.find(Mono());
  mpq_class k = 0;
  if (it != p.end()) { k = it->second; p.erase(it); }
  // primitive: coprime integer coefficients, leading positive
  mpz_class g = 0, l = 1;
  for (auto &m : p) {
    mpz_class num = abs(m.second.get_num());
    mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), num.get_mpz_t());
    mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), m.second.get_den().get_mpz_t());
  }
  mpz_class g2 = 0;
  for (auto &m : p) {
    mpq_class s = m.second * mpq_class(l);
    mpz_class num = abs(s.get_num());
    mpz_gcd(g2.get_mpz_t(), g2.get_mpz_t(), num.get_mpz_t());
  }
  mpq_class sc = mpq_class(l) / mpq_class(g2);
  if (p.begin()->second < 0) { sc = -sc; mask = flipMask(mask); }
  for (auto &m : p) m.second *= sc;
  k *= sc;
  mpq_class t = -k;
  u32 f = mkForm(p);
  Form &F = forms[f];
  if (F.isInt && t.get_den() != 1) {
    // between two integers: '<t' == '<=floor', never equal
    mpz_class fl;
    mpz_fdiv_q(fl.get_mpz_t(), t.get_num().get_mpz_t(), t.get_den().get_mpz_t());
    bool lt = mask & 1, gt = mask & 4;
    if (lt && gt) return mkConstBool(true);
    if (!lt && !gt) return mkConstBool(false);
    if (lt) { t = mpq_class(fl); mask = 3; }
    else { t = mpq_class(fl); mask = 4; }
  }
  // static box information may decide it
  int rm = rangeMask(F, t);
  if ((rm & mask) == rm) return mkConstBool(true);
  if ((rm & mask) == 0) return mkConstBool(false);
  auto key = std::make_tuple(f, mask * 2 + (ex ? 0 : 1), t);
  auto hit = litIdx.find(key);
  if (hit != litIdx.end()) return hit->second;
  Node n;
  n.k = K_BOOL;
  n.op = B_LIT;
  n.f = f;
  n.mask = mask;
  n.t = t;
  n.cb = concrete;
  n.bits = ex ? 0 : 1;
  if (F.hasval) {
    bool v = F.val < t ? mask & 1 : F.val == t ? mask & 2 : mask & 4;
    n.cb = v;
  }
  return litIdx[key] = addNode(std::move(n));
}
static z3::expr formTerm(Form &F, const mpq_class &t, int mask) {
  // comparison F rel t as a z3 boolean
  if (!F.laurent) {
    if (!F.e) F.e = keep(polyTerm(F.p, !F.isInt));
    z3::expr T = F.isInt ? Z->int_val(t.get_num().get_str().c_str()) : Z->real_val(t.get_str().c_str());
    z3::expr &e = *F.e;
    switch (mask) {
    case 1: return e < T;
    case 2: return e == T;
    case 3: return e <= T;
    case 4: return e > T;
    case 5: return e != T;
    case 6: return e >= T;
    }
    return Z->bool_val(mask == 7);
  }
  // multiply by an even power of every atom with negative exponents (positive factor)
  std::map<u32, int> mn;
  for (auto &m : F.p)
    for (auto &x : m.first)
      if (x.second < 0) mn[x.first] = std::min(mn[x.first], x.second);
  Mono mul;
  for (auto &x : mn) mul.push_back({x.first, (-x.second + 1) / 2 * 2});
  Poly q;
  for (auto &m : F.p) q[monoMul(m.first, mul)] += m.second;
  q[mul] -= t;
  if (q[mul] == 0) q.erase(mul);
  bool isInt = true;
  for (auto &m : q) for (auto &x : m.first) if (!atoms[x.first].isInt) isInt = false;
  if (isInt) {
    mpz_class l = 1;
    for (auto &m : q) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), m.second.get_den().get_mpz_t());
    for (auto &m : q) m.second *= mpq_class(l);
  }
  z3::expr e = polyTerm(q, !isInt);
  z3::expr T = isInt ? Z->int_val(0) : Z->real_val(0);
  switch (mask) {
  case 1: return e < T;
  case 2: return e == T;
  case 3: return e <= T;
  case 4: return e > T;
  case 5: return e != T;
  case 6: return e >= T;
  }
  return Z->bool_val(mask == 7);
}

static z3::expr boolExpr(u32 id) {
  Node &n = nodes[id];
  if (n.e) return *n.e;
  z3::expr r(*Z);
  switch (n.op) {
  case B_TRUE: r = Z->bool_val(true); break;
  case B_FALSE: r = Z->bool_val(false); break;
  case B_LIT: r = formTerm(forms[n.f], n.t, n.mask); break;
  case B_NOT: r = !boolExpr(n.a); break;
  case B_AND: r = boolExpr(n.a) && boolExpr(nodes[id].b); break;
  case B_OR: r = boolExpr(n.a) || boolExpr(nodes[id].b); break;
  case B_XOR: r = boolExpr(n.a) != boolExpr(nodes[id].b); break;
  default: die("boolExpr");
  }
  nodes[id].e = keep(r);
  return r;
}
// 3-valued evaluation under what the path already knows: 1 true, 0 false, -1 unknown
static int eval3c(u32 id);
static int eval3(u32 id) {
  Node &n = nodes[id];
  if (n.evE == epoch) return n.evV;
  int v = eval3c(id);
  nodes[id].evE = epoch;
  nodes[id].evV = v;
  return v;
}
static int eval3c(u32 id) {
  Node &n = nodes[id];
  switch (n.op) {
  case B_TRUE: return 1;
  case B_FALSE: return 0;
  case B_LIT: {
    int rm = rangeMask(forms[n.f], n.t);
    if ((rm & n.mask) == rm) return 1;
    if ((rm & n.mask) == 0) return 0;
    return -1;
  }
  case B_NOT: { int v = eval3(n.a); return v < 0 ? -1 : 1 - v; }
  case B_AND: {
    int x = eval3(n.a), y = eval3(n.b);
    if (x == 0 || y == 0) return 0;
    return x == 1 && y == 1 ? 1 : -1;
  }
  case B_OR: {
    int x = eval3(n.a), y = eval3(n.b);
    if (x == 1 || y == 1) return 1;
    return x == 0 && y == 0 ? 0 : -1;
  }
  case B_XOR: {
    int x = eval3(n.a), y = eval3(n.b);
    if (x < 0 || y < 0) return -1;
    return x ^ y;
  }
  case B_Z3: {
    auto it = knownZ3.find(n.e->id());
    return it == knownZ3.end() ? -1 : it->second;
  }
  }
  return -1;
}
static void narrow(Form &F, int mask, const mpq_class &t) {
  auto hiTo = [&](const mpq_class &v, bool s) {
    if (!F.hasHi || v < F.hi || (v == F.hi && s)) { F.hasHi = true; F.hi = v; F.hiS = s; }
  };
  auto loTo = [&](const mpq_class &v, bool s) {
    if (!F.hasLo || v > F.lo || (v == F.lo && s)) { F.hasLo = true; F.lo = v; F.loS = s; }
  };
  switch (mask) {
  case 1: if (F.isInt) hiTo(t - 1, false); else hiTo(t, true); break;
  case 2: loTo(t, false); hiTo(t, false); break;
  case 3: hiTo(t, false); break;
  case 4: if (F.isInt) loTo(t + 1, false); else loTo(t, true); break;
  case 6: loTo(t, false); break;
  case 5: F.excl.insert(t); break;
  }
  if (F.isInt) {
    while (F.hasLo && F.excl.count(F.lo)) F.lo += 1;
    while (F.hasHi && F.excl.count(F.hi)) F.hi -= 1;
  }
  // pin single variables
  if (F.hasLo && F.hasHi && F.lo == F.hi && !F.loS && !F.hiS && F.p.size() == 1) {
    const Mono &m = F.p.begin()->first;
    if (m.size() == 1 && m[0].second == 1) {
      Atom &a = atoms[m[0].first];
      if (!a.pinned && a.exactVal && a.val == F.lo / F.p.begin()->second) { a.pinned = true; anyPinned = true; memo.clear(); }
    }
  }
}
static void learn(u32 id, bool v) {  // record that the path condition contains id == v
  epoch++;
  Node &n = nodes[id];
  switch (n.op) {
  case B_LIT: narrow(forms[n.f], v ? n.mask : 7 & ~n.mask, n.t); break;
  case B_NOT: learn(n.a, !v); break;
  case B_AND:
    if (v) { learn(n.a, true); learn(nodes[id].b, true); }
    else {
      if (eval3(n.a) == 1) learn(nodes[id].b, false);
      else if (eval3(n.b) == 1) learn(nodes[id].a, false);
    }
    break;
  case B_OR:
    if (!v) { learn(n.a, false); learn(nodes[id].b, false); }
    else {
      if (eval3(n.a) == 0) learn(nodes[id].b, true);
      else if (eval3(n.b) == 0) learn(nodes[id].a, true);
    }
    break;
  case B_XOR: {
    int x = eval3(n.a), y = eval3(n.b);
    if (x >= 0) learn(nodes[id].b, v ^ (bool)x);
    else if (y >= 0) learn(nodes[id].a, v ^ (bool)y);
    break;
  }
  case B_Z3: knownZ3[n.e->id()] = v; break;
  default: break;
  }
}
static bool inexactBool(u32 id) { return nodes[id].op <= B_XOR && (nodes[id].bits & 1); }

static u32 bNot(u32 a) {
  if (a == 1) return 2;
  if (a == 2) return 1;
  if (nodes[a].op == B_NOT) return nodes[a].a;
  u32 &h = memo[{100, a, 0, 0, 0}];
  if (h) return h;
  Node n;
  n.k = K_BOOL; n.op = B_NOT; n.a = a; n.cb = !nodes[a].cb;
  n.bits = inexactBool(a);
  return h = addNode(std::move(n));
}
static u32 bBin(BOp op, u32 a, u32 b) {
  if (op == B_AND) {
    if (a == 2 || b == 2) return 2;
    if (a == 1) return b;
    if (b == 1 || a == b) return a;
  } else if (op == B_OR) {
    if (a == 1 || b == 1) return 1;
    if (a == 2) return b;
    if (b == 2 || a == b) return a;
  } else {
    if (a == b) return 2;
    if (a == 2) return b;
    if (b == 2) return a;
    if (a == 1) return bNot(b);
    if (b == 1) return bNot(a);
  }
  if (a > b) std::swap(a, b);
  u32 &h = memo[{101 + (u32)op, a, b, 0, 0}];
  if (h) return h;
  Node n;
  n.k = K_BOOL; n.op = op; n.a = a; n.b = b;
  n.bits = inexactBool(a) || inexactBool(b);
  bool x = nodes[a].cb, y = nodes[b].cb;
  n.cb = op == B_AND ? x && y : op == B_OR ? x || y : x != y;
  return h = addNode(std::move(n));
}
static u32 asBool(u32 id, u32 concrete) {  // shadow id (0 = concrete) -> node
  if (!id) return mkConstBool(concrete);
  if (nodes[id].k != K_BOOL) die("bool expected");
  return id;
}
static u32 outBool(u32 n) { return n <= 2 ? 0 : n; }

// ------------------------------------------------------------------ solver
static z3::check_result query(const z3::expr &extra, z3::model *m) {
  timerOff();
  double t0 = now();
  S->queries++;
  pathQueries++;
  slv->push();
  slv->add(extra);
  z3::check_result r = z3::unknown;
  try {
    r = slv->check();
    if (r == z3::sat && m) *m = slv->get_model();
  } catch (z3::exception &ex) { r = z3::unknown; }
  slv->pop();
  if (r == z3::unknown) {
    // second opinion: a fresh, non-incremental solver on the same conjunction
    try {
      z3::solver s2(*Z);
      z3::params p(*Z);
      p.set("timeout", (unsigned)optQueryMs * 2);
      p.set("random_seed", 7u);
      s2.set(p);
      for (auto a : slv->assertions()) s2.add(a);
      s2.add(extra);
      r = s2.check();
      if (r == z3::sat && m) *m = s2.get_model();
    } catch (z3::exception &ex) { r = z3::unknown; }
  }
  S->solverUs += (u64)((now() - t0) * 1e6);
  if (r == z3::sat) S->sat++;
  else if (r == z3::unsat) S->unsat++;
  else S->unknown++;
  timerOn();
  return r;
}
static Inputs inputsFrom(z3::model &m) {
  Inputs in = curIn;
  for (auto &d : declared) in[d.first] = d.second;
  for (auto &d : declExpr) {
    z3::expr v = m.eval(*d.second, true);
    int k = declKind[d.first];
    if (k == 0) {
      std::string s = v.get_decimal_string(0);
      i64 x;
      if (v.is_numeral_i64(x)) in[d.first] = x;
    } else if (k == 1) {
      u64 x = 0;
      v.is_numeral_u64(x);
      in[d.first] = (i64)x;
    } else {
      z3::expr bv(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v));
      bv = bv.simplify();
      u64 x = 0;
      if (Z3_get_numeral_uint64(*Z, bv, (uint64_t *)&x)) in[d.first] = (i64)x;
      else in[d.first] = 0x7ff8000000000000ll;  // NaN
    }
  }
  return in;
}
static std::string showInputs(const Inputs &in) {
  std::string s;
  for (auto &i : in) s += i.first + "=" + std::to_string(i.second) + " ";
  return s;
}

static void endPath() { longjmp(pathEnd, 1); }

// decide a boolean on this path; the concrete direction is followed
static void endPath();
static void pinRegion();
// Machine and exact arithmetic disagree on this input. With query variables declared, every
// input of the region is run again with everything but those variables fixed (so that the
// code runs in machine arithmetic); otherwise the path is only counted.
static void diverge(const z3::expr *region = nullptr) {
  if (divergedNow) return;
  if (queryVars.empty() || pinnedPath || replayMode) { S->diverged++; divergedNow = true; return; }
  divergedNow = true;
  if (optVerbose) fprintf(stderr, "divergence region: %s [%s]\n", region ? region->to_string().c_str() : "-", showInputs(declared).c_str());
  if (region) slv->add(*region);
  pinRegion();
  // the machine's own way is covered by the pinned runs
  endPath();
}
static bool linearOnly(const z3::expr &e, std::unordered_map<unsigned, bool> &memo) {
  if (!e.is_app()) return false;
  auto it = memo.find(e.id());
  if (it != memo.end()) return it->second;
  bool ok = true;
  unsigned vars = 0;
  for (unsigned i = 0; i < e.num_args() && ok; i++) {
    z3::expr c = e.arg(i);
    ok = linearOnly(c, memo);
    if (!c.is_numeral()) vars++;
  }
  auto k = e.decl().decl_kind();
  if (k == Z3_OP_MUL && vars > 1) ok = false;
  if (k == Z3_OP_DIV || k == Z3_OP_IDIV || k == Z3_OP_MOD || k == Z3_OP_POWER) ok = ok && vars == 0;
  return memo[e.id()] = ok;
}
// Queue every input of this path's region with all but the query variables fixed. The region
// is over-approximated by the linear part of the path condition: more inputs are run than
// needed, never fewer.
static void pinRegion() {
  z3::solver ls(*Z);
  z3::params lp(*Z);
  lp.set("timeout", (unsigned)optQueryMs);
  ls.set(lp);
  std::unordered_map<unsigned, bool> memo;
  for (auto a : slv->assertions())
    if (linearOnly(a, memo)) ls.add(a);
  timerOff();
  std::vector<std::pair<u64, Item>> found;
  for (int n = 0;; n++) {
    double t0 = now();
    auto r = z3::unknown;
    S->queries++;
    try { r = ls.check(); } catch (z3::exception &ex) {}
    S->solverUs += (u64)((now() - t0) * 1e6);
    if (r == z3::unknown) { S->unknown++; S->diverged++; break; }
    if (r != z3::sat) { S->unsat++; break; }
    S->sat++;
    if (n == 400) { S->diverged++; found.clear(); break; }  // too many to run one by one
    z3::model m = ls.get_model();
    Item it;
    for (auto &d : inputsFrom(m))  // what this path has not asked for yet stays open
      if (declared.count(d.first)) it.in.insert(d);
    it.in["__pin"] = 1;
    z3::expr diff = Z->bool_val(false);
    u64 h = 1469598103934665603ull;
    for (auto &d : it.in) {
      if (queryVars.count(d.first)) continue;
      for (char c : d.first) h = (h ^ (unsigned char)c) * 1099511628211ull;
      for (int k = 0; k < 8; k++) h = (h ^ ((d.second >> (8 * k)) & 255)) * 1099511628211ull;
    }
    for (auto &d : declExpr)
      if (!queryVars.count(d.first) && declKind[d.first] == 0) diff = diff || *d.second != Z->int_val((int64_t)it.in[d.first]);
    ls.add(diff);
    found.push_back({h ? h : 1, it});
  }
  for (auto &f : found) {
    bool fresh = false;
    u64 h = f.first;
    for (u64 k = h; ; k++) {
      u64 z = 0;
      auto &slot = S->seen[k & 0xffff];
      if (slot.compare_exchange_strong(z, h)) { fresh = true; break; }
      if (z == h) break;
      if (k - h > 60000) { fresh = true; break; }
    }
    if (fresh) { outItems->push_back(f.second); S->pinned++; }
  }
  timerOn();
}
static void branch(u32 id, bool concrete) {
  if (!inPath) return;
  S->branches++;
  if (id <= 2) {
    if ((id == 1) != concrete) diverge();
    return;
  }
  int v = eval3(id);
  if (v >= 0) {
    S->rangeDecided++;
    if ((bool)v != concrete) diverge();
    return;
  }
  if (nodes[id].cb != concrete) {
    // IEEE execution and the exact encoding disagree on this input
    z3::expr reg = nodes[id].cb ? boolExpr(id) : !boolExpr(id);
    diverge(&reg);
    if (optVerbose) fprintf(stderr, "divergence: cb=%d concrete=%d %s\n", nodes[id].cb, concrete, boolExpr(id).to_string().c_str());
  }
  if (inexactBool(id)) S->inexactBranches++;
  pathBranches++;
  z3::expr e = boolExpr(id);
  size_t d = decisions.size();
  if (d < expected.size()) {
    if ((expected[d] == '1') != concrete) {
      z3::expr reg = expected[d] == '1' ? e : !e;
      diverge(&reg);
      if (optVerbose) fprintf(stderr, "divergence at depth %zu: %s\n", d, e.to_string().c_str());
    }
  } else if (!divergedNow && !replayMode) {
    z3::model m(*Z);
    auto r = query(concrete ? !e : e, &m);
    if (r == z3::sat) {
      if (optVerbose) fprintf(stderr, "fork on: %s\n", e.to_string().c_str());
      Item it;
      it.in = inputsFrom(m);
      it.dec = decisions + (concrete ? '0' : '1');
      outItems->push_back(it);
      S->forks++;
    } else if (r == z3::unknown && !queryVars.empty() && !pinnedPath) {  // too hard: fix everything but the query variables
      S->unknown--;
      pinRegion();
      endPath();
    }
  }
  decisions += concrete ? '1' : '0';
  if (!replayMode) slv->add(concrete ? e : !e);
  learn(id, concrete);
}

static void violation(const std::string &kind, const std::string &msg, const Inputs &in) {
  outViol->push_back({msg, in, kind});
}
static void assertNode(const char *msg, u32 id) {
  if (!inPath) return;
  if (id == 1 || (id > 2 && eval3(id) == 1)) { S->assertsTrivial++; return; }
  bool cb = id == 2 ? false : nodes[id].cb;
  Inputs cur = declared;
  for (auto &x : curIn) cur.insert(x);
  if (!cb) {
    violation("assert", msg, cur);
    if (id == 2) { endPath(); return; }
  }
  if (replayMode) return;
  if (divergedNow) { return; }
  if (inexactBool(id)) S->inexactAsserts++;
  z3::model m(*Z);
  z3::expr e = boolExpr(id);
  auto r = query(!e, &m);
  if (r == z3::sat) { if (cb) violation("assert", msg, inputsFrom(m)); }
  else if (r == z3::unsat) S->assertsSolver++;
  else if (!queryVars.empty() && !pinnedPath) {  // too hard as it is: fix everything but the query variables
    S->unknown--;
    pinRegion();
  } else S->assertsUnknown++;
  if (!cb) endPath();
  slv->add(e);
  learn(id, true);
}
static void assumeNode(u32 id) {
  if (!inPath) return;
  if (id == 1) return;
  if (id == 2) { S->assumeCut++; endPath(); }
  int v = eval3(id);
  if (v == 1) return;
  if (v == 0) { S->assumeCut++; endPath(); }
  bool cb = nodes[id].cb;
  z3::expr e = boolExpr(id);
  size_t d = decisions.size();
  if (!cb) {
    if (d >= expected.size() && !divergedNow && !replayMode) {
      z3::model m(*Z);
      auto r = query(e, &m);
      if (r == z3::sat) {
        Item it;
        it.in = inputsFrom(m);
        it.dec = decisions;  // assumes are not recorded as decisions
        outItems->push_back(it);
      }
    }
    S->assumeCut++;
    endPath();
  }
  if (!replayMode) slv->add(e);
  learn(id, true);
}

// ------------------------------------------------------------------ shadow memory
struct Sb { u32 id; unsigned char idx, size; };
struct Page { Sb b[4096]; };
static std::unordered_map<u64, Page *> pages;
static u64 lastPg = ~0ull;
static Page *lastP = nullptr;
static inline Page *page(u64 a, bool create) {
  u64 n = a >> 12;
  if (n == lastPg) { if (lastP || !create) return lastP; }
  auto it = pages.find(n);
  Page *p = it == pages.end() ? nullptr : it->second;
  if (!p && create) {
    p = (Page *)calloc(1, sizeof(Page));
    pages[n] = p;
  }
  lastPg = n;
  lastP = p;
  return p;
}
static inline Sb *sb(u64 a, bool create) {
  Page *p = page(a, create);
  return p ? &p->b[a & 4095] : nullptr;
}

static void concretizeNode(u32 id);
static u32 bvExtract(u32 id, int byte, int size);

extern "C" {

void rs_branch(u32 id, u32 c);
void rs_concf(u32 id, double v);
void rs_conc(u32 id, u32 bits, u64 v);

static void clearRange(u64 a, u64 n) {
  if (pages.empty()) return;
  for (u64 i = 0; i < n;) {
    Page *p = page(a + i, false);
    u64 off = (a + i) & 4095, len = std::min<u64>(n - i, 4096 - off);
    if (p)
      for (u64 k = 0; k < len; k++) {
        Sb &s = p->b[off + k];
        if (s.id) {
          s.id = 0;
        }
      }
    i += len;
  }
}
void rs_clear(void *a, u64 n) { clearRange((u64)a, n); }

u32 rs_load(void *addr, u32 size) {
  if (pages.empty() || !inPath) return 0;
  u64 a = (u64)addr;
  Sb *s = sb(a, false);
  if (s && s->id && s->idx == 0 && s->size == size) {
    // the common case: whole value
    bool ok = true;
    for (u32 i = 1; i < size && ok; i++) {
      Sb *q = sb(a + i, false);
      if (!q || q->id != s->id || q->idx != i) ok = false;
    }
    if (ok) return s->id;
  }
  bool any = false;
  for (u32 i = 0; i < size; i++) {
    Sb *q = sb(a + i, false);
    if (q && q->id) any = true;
  }
  if (!any) return 0;
  if (optVerbose) fprintf(stderr, "mixed load size %u at %p from %p (idx %d size %d)\n", size, addr, __builtin_return_address(0), s ? (int)s->idx : -1, s ? (int)s->size : -1);
  // mixed / partial: concretise every expression involved
  std::set<u32> ids;
  for (u32 i = 0; i < size; i++) {
    Sb *q = sb(a + i, false);
    if (q && q->id) ids.insert(q->id);
  }
  for (u32 id : ids) concretizeNode(id);
  return 0;
}
void rs_memread(void *addr, u64 n) {
  if (pages.empty() || !inPath) return;
  if (n == ~0ull) {
    // C string
    const char *p = (const char *)addr;
    for (;; p++) {
      u32 id = rs_load((void *)p, 1);
      if (id) concretizeNode(id);
      if (!*p) break;
    }
    return;
  }
  std::set<u32> ids;
  for (u64 i = 0; i < n; i++) {
    Sb *q = sb((u64)addr + i, false);
    if (q && q->id) ids.insert(q->id);
  }
  for (u32 id : ids) concretizeNode(id);
}
void rs_strlen(void *addr);
void rs_store(void *addr, u32 size, u32 id) {
  u64 a = (u64)addr;
  if (!id || !inPath) {
    if (!pages.empty()) clearRange(a, size);
    return;
  }
  for (u32 i = 0; i < size; i++) {
    Sb *s = sb(a + i, true);
    s->id = id;
    s->idx = i;
    s->size = size;
  }
}
void rs_memcpy(void *d, void *s, u64 n) {
  if (pages.empty() || d == s) return;
  u64 D = (u64)d, Sx = (u64)s;
  std::vector<Sb> tmp;
  bool any = false;
  for (u64 i = 0; i < n;) {
    Page *p = page(Sx + i, false);
    u64 off = (Sx + i) & 4095, len = std::min<u64>(n - i, 4096 - off);
    if (p) {
      if (!any) { tmp.assign(n, Sb{0, 0, 0}); any = true; }
      for (u64 k = 0; k < len; k++) tmp[i + k] = p->b[off + k];
    }
    i += len;
  }
  clearRange(D, n);
  if (any)
    for (u64 i = 0; i < n; i++)
      if (tmp[i].id) *sb(D + i, true) = tmp[i];
}
void rs_byval(void *d, u64 src, u64 n) {
  if (src) rs_memcpy(d, (void *)src, n);
  else clearRange((u64)d, n);
}

// ------------------------------------------------------------------ heap of the program under test
void *rs_new(u64 n) { return inPath ? arena::alloc(n) : ::malloc(n ? n : 1); }
void *rs_new_nt(u64 n, void *) { return rs_new(n); }
void *rs_new_al(u64 n, u64 al) { return inPath ? arena::alloc(n, al) : ::aligned_alloc(al, (n + al - 1) / al * al); }
void rs_delete(void *p) {
  if (!p) return;
  if (inPath && !arena::in(p)) return;
  if (arena::in(p)) arena::release(p);
  else ::free(p);
}
void rs_delete_s(void *p, u64) { rs_delete(p); }

// ------------------------------------------------------------------ branches & concretisation
void rs_branch(u32 id, u32 c) {
  if (!id) return;
  branch(id, c);
}

static z3::expr fpConst(double v) {
  u64 b;
  memcpy(&b, &v, 8);
  z3::expr bv = Z->bv_val((uint64_t)b, 64);
  return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, bv, Z->fpa_sort(11, 53)));
}
static u32 mkZ3Bool(const z3::expr &e, bool c) {
  z3::expr s = e.simplify();
  if (s.is_true()) return 1;
  if (s.is_false()) return 2;
  Node n;
  n.k = K_BOOL; n.op = B_Z3; n.cb = c;
  n.e = keep(s);
  return addNode(std::move(n));
}

// Fix a term to its value on this path; the other values it can take (at most
// 64, otherwise the run is reported as incomplete) become work items.
static void pinTerm(u32 lit, const std::function<z3::expr(const z3::model &)> &next) {
  int v3 = lit <= 2 ? (lit == 1) : eval3(lit);
  if (v3 == 1) return;
  if (v3 == 0) { diverge(); return; }
  S->branches++;
  pathBranches++;
  if (inexactBool(lit)) S->inexactBranches++;
  size_t d = decisions.size();
  z3::expr e = boolExpr(lit);
  if (d >= expected.size() && !divergedNow && !replayMode) {
    z3::expr others = !e;
    for (int n = 0;; n++) {
      z3::model m(*Z);
      auto r = query(others, &m);
      if (r != z3::sat) break;
      if (n == 256) { S->unknown++; break; }
      Item it;
      it.in = inputsFrom(m);
      it.dec = decisions + '1';
      outItems->push_back(it);
      S->forks++;
      others = others && !next(m);
    }
  }
  decisions += '1';
  if (!replayMode) slv->add(e);
  learn(lit, true);
}
void rs_concf(u32 id, double v) {
  if (!id || !inPath) return;
  if (nodes[id].k == K_LAZY) { concretizeNode(id); return; }
  Node &n = nodes[id];
  S->concretized++;
  if (optVerbose) { fprintf(stderr, "concretize %.17g from %p\n", v, __builtin_return_address(0)); }
  if (n.k == K_REAL) {
    Poly p = n.p;
    mpq_class val;
    if (!n.hasval) { S->unknown++; return; }  // not a rational: cannot be pinned, the run is incomplete
    val = n.val;
    addTo(p, pconst(val), -1);
    bool ex = n.exact;
    u32 l = mkLit(p, 2, true, ex);
    Poly full = n.p;
    pinTerm(l, [full](const z3::model &m) {
      z3::expr t = polyTerm(full, true);
      return t == m.eval(t, true);
    });
  } else if (n.k == K_FP) {
    z3::expr c = fpConst(v);
    z3::expr t = *n.e;
    z3::expr same(*Z, std::isnan(v) ? Z3_mk_fpa_is_nan(*Z, t) : Z3_mk_eq(*Z, t, c));
    pinTerm(mkZ3Bool(same, true), [t](const z3::model &m) { return z3::expr(*Z, Z3_mk_eq(*Z, t, m.eval(t, true))); });
  } else if (n.k == K_BV) {
    u64 b;
    memcpy(&b, &v, 8);
    z3::expr t = *n.e;
    pinTerm(mkZ3Bool(t == Z->bv_val((uint64_t)b, 64), true), [t](const z3::model &m) { return t == m.eval(t, true); });
  }
}
void rs_conc(u32 id, u32 bits, u64 v) {
  if (!id || !inPath) return;
  Node &n = nodes[id];
  if (n.k == K_REAL || n.k == K_FP || n.k == K_LAZY) {
    double d;
    memcpy(&d, &v, 8);
    if (bits != 64) die("odd concretisation");
    rs_concf(id, d);
    return;
  }
  S->concretized++;
  if (optVerbose) fprintf(stderr, "conc bits %u v %llu from %p\n", bits, (unsigned long long)v, __builtin_return_address(0));
  if (n.k == K_BOOL) { branch(id, v & 1); return; }
  z3::expr t = *n.e;
  pinTerm(mkZ3Bool(t == Z->bv_val((uint64_t)v, n.bits), true), [t](const z3::model &m) { return t == m.eval(t, true); });
}
}  // extern C

static void concretizeNode(u32 id) {
  while (nodes[id].k == K_LAZY) id = nodes[id].a;
  Node &n = nodes[id];
  if (n.k == K_REAL) rs_concf(id, n.hasval ? n.val.get_d() : n.dval);
  else if (n.k == K_FP) rs_concf(id, n.dval);
  else if (n.k == K_BV) {
    S->concretized++;
    u64 v = (u64)n.dval;
    memcpy(&v, &n.dval, 8);
    z3::expr t = *n.e;
    pinTerm(mkZ3Bool(t == Z->bv_val((uint64_t)v, n.bits), true), [t](const z3::model &m) { return t == m.eval(t, true); });
  }
}
static u32 mkBV(const z3::expr &e, int bits, u64 cv) {
  z3::expr s = e.simplify();
  if (s.is_numeral()) return 0;
  Node n;
  n.k = K_BV;
  n.bits = bits;
  n.e = keep(s);
  memcpy(&n.dval, &cv, 8);
  return addNode(std::move(n));
}
static u32 mkFP(const z3::expr &e, double cv) {
  Node n;
  n.k = K_FP;
  n.bits = 64;
  n.e = keep(e);
  n.dval = cv;
  return addNode(std::move(n));
}
static z3::expr fpOf(u32 id, double v) {
  if (!id) return fpConst(v);
  return *nodes[id].e;
}
static z3::expr bvOf(u32 id, int bits, u64 v) {
  if (!id) return Z->bv_val((uint64_t)v, bits);
  return *nodes[id].e;
}
// the 64 bits of a double-valued node, for integer code working on the representation
static u32 bitsNode(u32 id) { return id; }

// ------------------------------------------------------------------ defined atoms
static u32 newAtom(const std::string &key, bool isInt, bool exactVal, const mpq_class &val, bool &fresh) {
  auto it = atomIdx.find(key);
  if (it != atomIdx.end()) { fresh = false; return it->second; }
  fresh = true;
  Atom a;
  a.name = key;
  a.isInt = isInt;
  a.exactVal = exactVal;
  a.val = val;
  a.def = 1;
  std::string nm = "a" + std::to_string(atoms.size());
  a.e = keep(isInt ? Z->int_const(nm.c_str()) : Z->real_const(nm.c_str()));
  atoms.push_back(a);
  u32 id = atoms.size() - 1;
  atomIdx[key] = id;
  return id;
}
static std::string polyKey(const Poly &p) {
  std::string s;
  for (auto &m : p) {
    s += m.second.get_str();
    for (auto &f : m.first) s += "*" + std::to_string(f.first) + "^" + std::to_string(f.second);
    s += "+";
  }
  return s;
}
static Poly atomPoly(u32 a) {
  Poly p;
  p[Mono{{a, 1}}] = 1;
  return p;
}
static void assertDef(const z3::expr &e) { if (!replayMode) slv->add(e); }
// real-valued z3 term for a (possibly Laurent-free) polynomial
static bool plain(const Poly &p) {
  for (auto &m : p) for (auto &f : m.first) if (f.second < 0) return false;
  return true;
}
// exact polynomial division (grevlex by map order, leading = last)
static bool pdivExact(const Poly &num, const Poly &den, Poly &q) {
  Poly r = num;
  q.clear();
  auto lead = std::prev(den.end());
  int guard = 0;
  while (!r.empty()) {
    if (++guard > 400) return false;
    auto lr = std::prev(r.end());
    // lr / lead
    Mono inv;
    for (auto &f : lead->first) inv.push_back({f.first, -f.second});
    Mono m = monoMul(lr->first, inv);
    for (auto &f : m) if (f.second < 0) return false;
    mpq_class c = lr->second / lead->second;
    q[m] += c;
    Poly mm;
    mm[m] = c;
    Poly prod = pmul(mm, den);
    addTo(r, prod, -1);
    // termination: leading term must be gone
    if (r.count(std::prev(prod.end())->first) && std::prev(prod.end())->first == lr->first) return false;
  }
  return true;
}
static Mono monoRoot(const Mono &m, int k, bool &ok) {
  Mono r;
  for (auto &f : m) {
    if (f.second % k) { ok = false; return r; }
    r.push_back({f.first, f.second / k});
  }
  return r;
}
static bool qroot(const mpq_class &q, int k, mpq_class &r) {
  mpz_class n = q.get_num(), d = q.get_den(), rn, rd;
  bool neg = n < 0;
  if (neg && k % 2 == 0) return false;
  if (neg) n = -n;
  if (!mpz_root(rn.get_mpz_t(), n.get_mpz_t(), k)) return false;
  if (!mpz_root(rd.get_mpz_t(), d.get_mpz_t(), k)) return false;
  if (neg) rn = -rn;
  r = mpq_class(rn) / mpq_class(rd);
  return true;
}
// exact k-th root of a polynomial by successive approximation from the leading term
static bool proot(const Poly &p, int k, Poly &root) {
  if (p.empty()) { root.clear(); return true; }
  // work with the lexicographically largest monomial as the leading one
  auto lead = std::prev(p.end());
  bool ok = true;
  Mono lm = monoRoot(lead->first, k, ok);
  mpq_class lc;
  if (!ok || !qroot(lead->second, k, lc)) return false;
  root.clear();
  root[lm] = lc;
  // next terms: r_{n+1} = r_n + lead(p - r_n^k) / (k * lead^(k-1))
  Mono dm;
  mpq_class dc = k;
  for (int i = 0; i < k - 1; i++) { dm = monoMul(dm, lm); dc *= lc; }
  Mono inv;
  for (auto &f : dm) inv.push_back({f.first, -f.second});
  for (int it = 0; it < 60; it++) {
    Poly pw = root;
    for (int i = 1; i < k; i++) pw = pmul(pw, root);
    Poly r = p;
    addTo(r, pw, -1);
    if (r.empty()) return true;
    auto lr = std::prev(r.end());
    Mono m = monoMul(lr->first, inv);
    mpq_class &c = root[m];
    c += lr->second / dc;
    if (c == 0) return false;
  }
  return false;
}

// split a denominator into factors linear in their variables where it falls apart over the rationals
static int totalDeg(const Poly &p) {
  int d = 0;
  for (auto &m : p) { int e = 0; for (auto &f : m.first) e += f.second; d = std::max(d, e); }
  return d;
}
static void coeffs(const Poly &p, u32 v, std::vector<Poly> &c) {
  for (auto &m : p) {
    Mono r;
    size_t e = 0;
    for (auto &f : m.first) if (f.first == v) e = f.second; else r.push_back(f);
    if (c.size() <= e) c.resize(e + 1);
    c[e][r] = m.second;
  }
}
static void factor(const Poly &y, std::vector<Poly> &out) {
  int deg = totalDeg(y);
  if (deg <= 1 || !plain(y)) { out.push_back(y); return; }
  for (u32 i = 0; i < atoms.size(); i++) {  // factors that have been divided by before
    if (!atoms[i].isInv) continue;
    Poly d = atoms[i].rest, q;
    d[Mono{{atoms[i].leadVar, 1}}] = atoms[i].lead;
    if (pdivExact(y, d, q)) { out.push_back(d); factor(q, out); return; }
  }
  std::set<u32> vars;
  for (auto &m : y) for (auto &f : m.first) vars.insert(f.first);
  for (u32 v : vars) {
    std::vector<Poly> c;
    coeffs(y, v, c);
    Poly q;
    if (c.size() == 2 && !isConst(c[1]) && (c[0].empty() || pdivExact(c[0], c[1], q))) {  // c1 * (v + q)
      q[Mono{{v, 1}}] = 1;
      factor(c[1], out);
      factor(q, out);
      return;
    }
    mpq_class a;
    if (c.size() == 3 && isConst(c[2], &a)) {  // a v^2 + b v + c with a square discriminant
      Poly disc = pmul(c[1], c[1]), root;
      addTo(disc, c[0], -4 * a);
      if (!disc.empty() && !proot(disc, 2, root)) continue;
      bool ok = true;
      for (auto &m : root) for (auto &f : m.first) if (f.second < 0) ok = false;
      if (!ok) continue;
      for (int sg : {1, -1}) {
        Poly l;
        l[Mono{{v, 1}}] = 2 * a;
        addTo(l, c[1], 1);
        addTo(l, root, sg);
        factor(l, out);
      }
      return;
    }
  }
  out.push_back(y);
}
// x / y as x times inverses of y's factors; false if the value of a factor is not known
static bool divideByFactors(const Poly &x, const Poly &y, Poly &out) {
  std::vector<Poly> fs;
  factor(y, fs);
  Poly prod = pconst(1), q = x;
  std::vector<std::pair<Poly, mpq_class>> lin;  // normalised, value
  for (auto &f : fs) {
    Poly d = f;
    mpq_class k = std::prev(d.end())->second, v;
    for (auto &m : d) m.second /= k;
    if (!plain(d) || !polyVal(d, v) || v == 0) return false;
    prod = pmul(prod, d);
    lin.push_back({d, v});
  }
  // y = c * prod, checked
  mpq_class c = std::prev(y.end())->second;
  auto pl = prod.find(std::prev(y.end())->first);
  if (pl == prod.end()) return false;
  c /= pl->second;
  Poly chk = y;
  addTo(chk, prod, -c);
  if (!chk.empty()) return false;
  Poly r;
  addTo(r, q, 1 / c);
  for (auto &l : lin) {
    const Poly &d = l.first;
    if (isConst(d)) continue;
    Poly e;
    if (pdivExact(r, d, e)) { r = e; continue; }
    bool fresh;
    u32 at = newAtom("inv:" + polyKey(d), false, true, 1 / l.second, fresh);
    if (fresh) {
      Atom &A = atoms[at];
      if (totalDeg(d) == 1) {
        u32 v = 0;
        for (auto &m : d) for (auto &f : m.first) v = std::max(v, f.first);
        A.rest = d;
        A.leadVar = v;
        A.lead = A.rest[Mono{{v, 1}}];
        A.rest.erase(Mono{{v, 1}});
        A.isInv = anyInv = true;
      }
      Poly def = pmul(atomPoly(at), d);
      addTo(def, pconst(1), -1);
      u32 lt = mkLit(def, 2, true);
      if (lt > 2) assertDef(boolExpr(lt));
    }
    r = pmul(r, atomPoly(at));
  }
  out = r;
  return true;
}

// a value the compiler computed speculatively (x/0): decided only if it is used
static u32 mkLazy(u32 operand, double v) {
  Node n;
  n.k = K_LAZY;
  n.a = operand;
  n.dval = v;
  return addNode(std::move(n));
}
static inline u32 force(u32 id) {
  if (!id || nodes[id].k != K_LAZY) return id;
  concretizeNode(nodes[id].a);
  return 0;
}

extern "C" {

// ------------------------------------------------------------------ floating point
u32 rs_fbin(u32 op, u32 a, double av, u32 b, double bv, double res) {
  if ((!a && !b) || !inPath) return 0;
  a = force(a), b = force(b);
  if (!a && !b) return 0;
  bool fp = (a && nodes[a].k != K_REAL) || (b && nodes[b].k != K_REAL);
  if (fp) {
    if ((a && nodes[a].k != K_FP) || (b && nodes[b].k != K_FP) || op == 4) { rs_concf(a, av); rs_concf(b, bv); return 0; }
    z3::expr x = fpOf(a, av), y = fpOf(b, bv);
    z3::expr rm(*Z, Z3_mk_fpa_rne(*Z));
    Z3_ast r;
    switch (op) {
    case 0: r = Z3_mk_fpa_add(*Z, rm, x, y); break;
    case 1: r = Z3_mk_fpa_sub(*Z, rm, x, y); break;
    case 2: r = Z3_mk_fpa_mul(*Z, rm, x, y); break;
    default: r = Z3_mk_fpa_div(*Z, rm, x, y); break;
    }
    return mkFP(z3::expr(*Z, r), res);
  }
  if ((!a && !std::isfinite(av)) || (!b && !std::isfinite(bv)) || op == 4) {
    // arithmetic with an infinite constant: concretise
    rs_concf(a, av);
    rs_concf(b, bv);
    return 0;
  }
  Key5 key{op, a, b, dbits(a, av), dbits(b, bv)};
  auto hit = memo.find(key);
  if (hit != memo.end()) return hit->second - 1;
  bool ex = (!a || nodes[a].exact) && (!b || nodes[b].exact);
  Poly x = polyOf(a, av), y = polyOf(b, bv);
  u32 out;
  switch (op) {
  case 0: addTo(x, y, 1); out = mkReal(x, ex, res); memo[key] = out + 1; return out;
  case 1: addTo(x, y, -1); out = mkReal(x, ex, res); memo[key] = out + 1; return out;
  case 2: out = mkReal(pmul(x, y), ex, res); memo[key] = out + 1; return out;
  case 3: {
    mpq_class c;
    if (isConst(y, &c)) {
      if (c == 0) return mkLazy(a, res);
      Poly r;
      addTo(r, x, 1 / c);
      return mkReal(r, ex, res);
    }
    u32 z = mkLit(y, 2, bv == 0, nodes[b].exact);
    branch(z, bv == 0);
    if (bv == 0) return a ? mkLazy(a, res) : 0;
    x = polyOf(a, av), y = polyOf(b, bv);
    if (isConst(y, &c)) {
      Poly r;
      addTo(r, x, 1 / c);
      return mkReal(r, ex, res);
    }
    Poly q;
    if (y.size() == 1) {
      Mono inv;
      for (auto &f : y.begin()->first) inv.push_back({f.first, -f.second});
      for (auto &m : x) q[monoMul(m.first, inv)] += m.second / y.begin()->second;
      return mkReal(q, ex, res);
    }
    if (x.empty()) return 0;
    if (pdivExact(x, y, q)) { out = mkReal(q, ex, res); memo[key] = out + 1; return out; }
    if (divideByFactors(x, y, q)) { out = mkReal(q, false, res); memo[key] = out + 1; return out; }
    mpq_class vx, vy, v;
    bool hv = polyVal(x, vx) && polyVal(y, vy) && vy != 0;
    if (hv) v = vx / vy; else v = mpq_class(std::isfinite(res) ? res : 0);
    bool fresh;
    u32 at = newAtom("div:" + polyKey(x) + "/" + polyKey(y), false, hv, v, fresh);
    if (fresh) {
      // q*y == x over the reals (Laurent parts cleared via forms)
      Poly d = pmul(atomPoly(at), y);
      addTo(d, x, -1);
      u32 l = mkLit(d, 2, true);
      if (l > 2) { assertDef(boolExpr(l)); }
    }
    return mkReal(atomPoly(at), false, res);
  }
  }
  return 0;
}
u32 rs_fneg(u32 a, double av) {
  if (!a || !inPath) return 0;
  if (!(a = force(a))) return 0;
  if (nodes[a].k == K_FP) return mkFP(z3::expr(*Z, Z3_mk_fpa_neg(*Z, *nodes[a].e)), -av);
  if (nodes[a].k != K_REAL) { rs_concf(a, av); return 0; }
  Poly r;
  addTo(r, polyOf(a, av), -1);
  return mkReal(r, nodes[a].exact, -av);
}
u32 rs_fcmp(u32 pred, u32 a, double av, u32 b, double bv, u32 res) {
  if ((!a && !b) || !inPath) return 0;
  a = force(a), b = force(b);
  if (!a && !b) return 0;
  bool fp = (a && nodes[a].k != K_REAL) || (b && nodes[b].k != K_REAL);
  if (fp) {
    if ((a && nodes[a].k != K_FP) || (b && nodes[b].k != K_FP)) { rs_concf(a, av); rs_concf(b, bv); return 0; }
    z3::expr x = fpOf(a, av), y = fpOf(b, bv);
    z3::expr un = z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, y));
    z3::expr r = Z->bool_val(false);
    int q = pred & 7;
    z3::expr eq(*Z, Z3_mk_fpa_eq(*Z, x, y)), lt(*Z, Z3_mk_fpa_lt(*Z, x, y)), gt(*Z, Z3_mk_fpa_gt(*Z, x, y));
    if (q & 1) r = r || eq;
    if (q & 2) r = r || gt;
    if (q & 4) r = r || lt;
    if (pred & 8) r = r || un;
    return outBool(mkZ3Bool(r, res));
  }
  // LLVM predicate bits: 1 eq, 2 gt, 4 lt, 8 unordered
  if (pred == 15 || pred == 0) return 0;
  if (pred == 7) return 0;  // ord: true for reals
  if (pred == 8) return 0;  // uno: false
  if ((!a && !std::isfinite(av)) || (!b && !std::isfinite(bv))) return 0;  // finite vs inf/nan: fixed
  int q = pred & 7, mask = ((q & 4) ? 1 : 0) | ((q & 1) ? 2 : 0) | ((q & 2) ? 4 : 0);
  Key5 key{200 + (u32)mask, a, b, dbits(a, av), dbits(b, bv)};
  auto hit = memo.find(key);
  if (hit != memo.end()) return hit->second;
  bool ex = (!a || nodes[a].exact) && (!b || nodes[b].exact);
  Poly x = polyOf(a, av);
  addTo(x, polyOf(b, bv), -1);
  u32 l = mkLit(x, mask, res, ex);
  if (l <= 2) {
    if ((l == 1) != (bool)res) {
      diverge();
      if (optVerbose) fprintf(stderr, "divergence: compare %.17g ? %.17g (pred %u) is %u, exact says %d  [%s]\n", av, bv, pred, res, l == 1, showInputs(declared).c_str());
    }
    return 0;
  }
  return memo[key] = l;
}
u32 rs_fpclass(u32 a, double av, u32 test, u32 res) {
  if (!a || !inPath) return 0;
  if (!(a = force(a))) return 0;
  if (nodes[a].k == K_REAL) {
    // finite: only zero / sign tests are symbolic
    unsigned fin = test & 0x1f8;  // neg normal(8) neg sub(16) neg zero(32) pos zero(64) pos sub(128) pos normal(256)
    if (fin == 0 || fin == 0x1f8) return 0;
    int g = fin & 24, z = fin & 96, q = fin & 384;
    if ((g == 0 || g == 24) && (z == 0 || z == 96) && (q == 0 || q == 384)) {
      // (a non-zero dyadic in the stated range is a normal number)
      u32 l = mkLit(polyOf(a, av), (g ? 1 : 0) | (z ? 2 : 0) | (q ? 4 : 0), res);
      if (l > 2 && !nodes[a].exact) nodes[l].bits |= 1;
      return outBool(l);
    }
    rs_concf(a, av);
    return 0;
  }
  if (nodes[a].k == K_FP) {
    z3::expr x = *nodes[a].e, r = Z->bool_val(false);
    z3::expr neg(*Z, Z3_mk_fpa_is_negative(*Z, x));
    if (test & 3) r = r || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x));
    z3::expr inf(*Z, Z3_mk_fpa_is_infinite(*Z, x)), nor(*Z, Z3_mk_fpa_is_normal(*Z, x)), sub(*Z, Z3_mk_fpa_is_subnormal(*Z, x)), zer(*Z, Z3_mk_fpa_is_zero(*Z, x));
    if (test & 4) r = r || (inf && neg);
    if (test & 8) r = r || (nor && neg);
    if (test & 16) r = r || (sub && neg);
    if (test & 32) r = r || (zer && neg);
    if (test & 64) r = r || (zer && !neg);
    if (test & 128) r = r || (sub && !neg);
    if (test & 256) r = r || (nor && !neg);
    if (test & 512) r = r || (inf && !neg);
    return outBool(mkZ3Bool(r, res));
  }
  rs_concf(a, av);
  return 0;
}
static void signBranch(u32 a, double av, int mask, bool c) {
  u32 l = mkLit(polyOf(a, av), mask, c);
  if (l > 2 && !nodes[a].exact) nodes[l].bits |= 1;
  branch(l, c);
}
u32 rs_math1(u32 fn, u32 a, double av, double res) {
  if (!a || !inPath) return 0;
  if (!(a = force(a))) return 0;
  Node &n = nodes[a];
  if (n.k == K_FP) {
    if (fn == 14) return mkFP(z3::expr(*Z, Z3_mk_fpa_abs(*Z, *n.e)), res);
    if (fn == 0) return mkFP(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, Z3_mk_fpa_rne(*Z), *n.e)), res);
    rs_concf(a, av);
    return 0;
  }
  if (n.k != K_REAL) { rs_concf(a, av); return 0; }
  bool ex = n.exact;
  switch (fn) {
  case 14: {  // fabs
    signBranch(a, av, 6, av >= 0);
    Poly p = polyOf(a, av), r;
    addTo(r, p, av >= 0 ? 1 : -1);
    return mkReal(r, ex, res);
  }
  case 0: {  // sqrt
    signBranch(a, av, 6, av >= 0);
    if (av < 0) { rs_concf(a, av); return 0; }
    Poly p = polyOf(a, av), r;
    mpq_class c;
    if (isConst(p, &c)) return 0;
    if (proot(p, 2, r)) {
      // |r|
      double rv = res;
      mpq_class v;
      bool pos = true;
      if (polyVal(r, v)) pos = v >= 0;
      u32 l = mkLit(r, 6, pos);
      if (l > 2 && !ex) nodes[l].bits |= 1;
      branch(l, pos);
      Poly q;
      addTo(q, r, pos ? 1 : -1);
      return mkReal(q, ex, rv);
    }
    bool fresh;
    mpq_class pv, rv;
    bool hv = polyVal(p, pv) && qroot(pv, 2, rv);
    u32 at = newAtom("sqrt:" + polyKey(p), false, hv, hv ? rv : mpq_class(std::isfinite(res) ? res : 0), fresh);
    if (fresh) {
      assertDef(*atoms[at].e >= 0);
      Poly d = pmul(atomPoly(at), atomPoly(at));
      addTo(d, p, -1);
      u32 l = mkLit(d, 2, true);
      if (l > 2) assertDef(boolExpr(l));
    }
    return mkReal(atomPoly(at), false, res);
  }
  case 1: {  // cbrt
    Poly p = polyOf(a, av), r;
    if (isConst(p)) return 0;
    if (proot(p, 3, r)) return mkReal(r, ex, res);
    bool fresh;
    mpq_class pv, rv;
    bool hv = polyVal(p, pv) && qroot(pv, 3, rv);
    u32 at = newAtom("cbrt:" + polyKey(p), false, hv, hv ? rv : mpq_class(std::isfinite(res) ? res : 0), fresh);
    if (fresh) {
      Poly A = atomPoly(at), d = pmul(pmul(A, A), A);
      addTo(d, p, -1);
      u32 l = mkLit(d, 2, true);
      if (l > 2) assertDef(boolExpr(l));
      // same sign
      z3::expr x = boolExpr(mkLit(p, 4, true)), y = boolExpr(mkLit(p, 2, true));
      z3::expr e = *atoms[at].e;
      assertDef((e > 0) == x);
      assertDef((e == 0) == y);
    }
    return mkReal(atomPoly(at), false, res);
  }
  default:
    rs_concf(a, av);
    return 0;
  }
}
u32 rs_math2(u32 fn, u32 a, double av, u32 b, double bv, double res) {
  if ((!a && !b) || !inPath) return 0;
  a = force(a), b = force(b);
  if (!a && !b) return 0;
  bool fp = (a && nodes[a].k != K_REAL) || (b && nodes[b].k != K_REAL);
  if (fp) {
    if ((a && nodes[a].k != K_FP) || (b && nodes[b].k != K_FP)) { rs_concf(a, av); rs_concf(b, bv); return 0; }
    z3::expr x = fpOf(a, av), y = fpOf(b, bv);
    // fmin/fmax of zeros of different sign is unspecified: fall through to a comparison
    if (fn == 2 || fn == 3) {
      z3::expr xn(*Z, Z3_mk_fpa_is_nan(*Z, x)), yn(*Z, Z3_mk_fpa_is_nan(*Z, y));
      z3::expr lt(*Z, Z3_mk_fpa_lt(*Z, x, y)), gt(*Z, Z3_mk_fpa_gt(*Z, x, y));
      branch(mkZ3Bool(xn, std::isnan(av)), std::isnan(av));
      if (std::isnan(av)) return b;
      branch(mkZ3Bool(yn, std::isnan(bv)), std::isnan(bv));
      if (std::isnan(bv)) return a;
      if (fn == 2) { branch(mkZ3Bool(lt, av < bv), av < bv); return av < bv ? a : b; }
      branch(mkZ3Bool(gt, av > bv), av > bv);
      return av > bv ? a : b;
    }
    rs_concf(a, av);
    rs_concf(b, bv);
    return 0;
  }
  if (fn == 0 && !b && (bv == 2 || bv == 3)) {  // pow
    Poly p = polyOf(a, av), r = pmul(p, p);
    if (bv == 3) r = pmul(r, p);
    return mkReal(r, nodes[a].exact, res);
  }
  if (fn == 5 && a && !b && std::isfinite(bv) && bv != 0) {
    // remainder(x, c) = x - n*c for the integer n nearest to x/c (exact in IEEE arithmetic)
    Poly x = polyOf(a, av);
    mpq_class c(bv), xv;
    if (polyVal(x, xv)) {
      mpq_class nq = (xv - mpq_class(res)) / c;
      if (nq.get_den() == 1) {
        bool fresh;
        u32 at = newAtom("rem:" + polyKey(x) + "%" + c.get_str(), true, true, nq, fresh);
        mpq_class bl, bh;
        if (fresh) {
          if (polyBox(x, bl, bh)) {
            mpz_class l, h;
            mpq_class ql = bl / abs(c), qh = bh / abs(c);
            mpz_fdiv_q(l.get_mpz_t(), ql.get_num().get_mpz_t(), ql.get_den().get_mpz_t());
            mpz_fdiv_q(h.get_mpz_t(), qh.get_num().get_mpz_t(), qh.get_den().get_mpz_t());
            atoms[at].bounded = true;
            mpq_class L = mpq_class(l) - 1, H = mpq_class(h) + 2;
            if (c < 0) { std::swap(L, H); L = -L; H = -H; }
            atoms[at].lo = L; atoms[at].hi = H;
            assertDef(*atoms[at].e >= Z->int_val(mpz_class(L).get_str().c_str()));
            assertDef(*atoms[at].e <= Z->int_val(mpz_class(H).get_str().c_str()));
          }
          Poly d = x;
          addTo(d, atomPoly(at), -c);
          Poly u = d, v;
          addTo(u, pconst(abs(c) / 2), -1);
          addTo(v, d, -1);
          addTo(v, pconst(abs(c) / 2), -1);
          u32 l1 = mkLit(u, 3, true), l2 = mkLit(v, 3, true);
          if (l1 > 2) assertDef(boolExpr(l1));
          if (l2 > 2) assertDef(boolExpr(l2));
        }
        Poly d = x;
        addTo(d, atomPoly(at), -c);
        // the result is exact by the IEEE definition of remainder
        Node n;
        n.k = K_REAL; n.p = d; n.exact = nodes[a].exact; n.hasval = true; n.val = mpq_class(res); n.dval = res;
        return addNode(std::move(n));
      }
    }
  }
  if (fn == 2 || fn == 3) {
    Poly x = polyOf(a, av);
    addTo(x, polyOf(b, bv), -1);
    bool lt = av < bv;
    u32 l = mkLit(x, 1, lt);
    if (l > 2 && ((a && !nodes[a].exact) || (b && !nodes[b].exact))) nodes[l].bits |= 1;
    branch(l, lt);
    return (fn == 2) == lt ? a : b;
  }
  rs_concf(a, av);
  rs_concf(b, bv);
  return 0;
}

// ------------------------------------------------------------------ integers / bit vectors
static bool isFloatNode(u32 a) { return a && (nodes[a].k == K_REAL || nodes[a].k == K_FP || nodes[a].k == K_LAZY); }
u32 rs_ibin(u32 op, u32 bits, u32 a, u64 av, u32 b, u64 bv, u64 res) {
  if ((!a && !b) || !inPath) return 0;
  if (isFloatNode(a) || isFloatNode(b)) {
    rs_conc(a, bits, av);
    rs_conc(b, bits, bv);
    return 0;
  }
  z3::expr x = bvOf(a, bits, av), y = bvOf(b, bits, bv);
  z3::expr r(*Z);
  // llvm::Instruction opcodes (LLVM 18): Add 13, Sub 15, Mul 17, UDiv 19, SDiv 20, URem 22, SRem 23, Shl 25, LShr 26, AShr 27, And 28, Or 29, Xor 30
  switch (op) {
  case 13: r = x + y; break;
  case 15: r = x - y; break;
  case 17: r = x * y; break;
  case 19: r = z3::udiv(x, y); break;
  case 20: r = x / y; break;
  case 22: r = z3::urem(x, y); break;
  case 23: r = z3::srem(x, y); break;
  case 25: r = z3::shl(x, y); break;
  case 26: r = z3::lshr(x, y); break;
  case 27: r = z3::ashr(x, y); break;
  case 28: r = x & y; break;
  case 29: r = x | y; break;
  case 30: r = x ^ y; break;
  default: rs_conc(a, bits, av); rs_conc(b, bits, bv); return 0;
  }
  return mkBV(r, bits, res);
}
u32 rs_icmp(u32 pred, u32 bits, u32 a, u64 av, u32 b, u64 bv, u32 res) {
  if ((!a && !b) || !inPath) return 0;
  if (isFloatNode(a) && !b && bits == 64 && ((pred == 40 && bv == 0) || (pred == 38 && bv == ~0ull))) {
    // sign-bit test on the representation of a double
    if (nodes[a].k == K_FP) {
      // (the sign of a NaN is not fixed by the theory: split it off)
      double d;
      memcpy(&d, &av, 8);
      bool nn = std::isnan(d);
      branch(mkZ3Bool(z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, *nodes[a].e)), nn), nn);
      if (nn) return 0;
      z3::expr ng(*Z, Z3_mk_fpa_is_negative(*Z, *nodes[a].e));
      return outBool(mkZ3Bool(pred == 40 ? ng : !ng, res));
    }
    if (nodes[a].k == K_REAL) {
      double d;
      memcpy(&d, &av, 8);
      bool z = d == 0;
      u32 l = mkLit(nodes[a].p, 2, z);
      if (l > 2 && !nodes[a].exact) nodes[l].bits |= 1;
      branch(l, z);
      if (z) return 0;  // the sign of a zero follows the concrete run
      l = mkLit(polyOf(a, d), pred == 40 ? 1 : 4, res);
      if (l > 2 && !nodes[a].exact) nodes[l].bits |= 1;
      return outBool(l);
    }
  }
  if (isFloatNode(a) || isFloatNode(b)) {
    rs_conc(a, bits, av);
    rs_conc(b, bits, bv);
    return 0;
  }
  z3::expr x = bvOf(a, bits, av), y = bvOf(b, bits, bv);
  z3::expr r(*Z);
  switch (pred) {
  case 32: r = x == y; break;
  case 33: r = x != y; break;
  case 34: r = z3::ugt(x, y); break;
  case 35: r = z3::uge(x, y); break;
  case 36: r = z3::ult(x, y); break;
  case 37: r = z3::ule(x, y); break;
  case 38: r = x > y; break;
  case 39: r = x >= y; break;
  case 40: r = x < y; break;
  case 41: r = x <= y; break;
  default: die("icmp");
  }
  return outBool(mkZ3Bool(r, res));
}
u32 rs_icast(u32 op, u32 fb, u32 tb, u32 a, u64 av) {
  if (!a || !inPath) return 0;
  if (isFloatNode(a)) { rs_conc(a, fb, av); return 0; }
  z3::expr x = *nodes[a].e;
  u64 cv = av;
  if (op == 1) { cv = (u64)((i64)(av << (64 - fb)) >> (64 - fb)); if (tb < 64) cv &= (1ull << tb) - 1; }
  if (op == 2 && tb < 64) cv &= (1ull << tb) - 1;
  if (op == 0) return mkBV(z3::zext(x, tb - fb), tb, cv);
  if (op == 1) return mkBV(z3::sext(x, tb - fb), tb, cv);
  return mkBV(x.extract(tb - 1, 0), tb, cv);
}
u32 rs_trunc1(u32 a, u32 bits, u64 av) {
  if (!a || !inPath) return 0;
  if (isFloatNode(a)) { rs_conc(a, bits, av); return 0; }
  return outBool(mkZ3Bool(nodes[a].e->extract(0, 0) == Z->bv_val(1, 1), av & 1));
}
// load of table[idx] from a constant table; idx is a symbolic integer
u32 rs_table(u32 ix, u32 ibits, void *base, u32 bits, u64 n, u64 res) {
  if (!ix || !inPath) return 0;
  if (nodes[ix].k != K_BV) { concretizeNode(ix); return 0; }
  z3::expr t = *nodes[ix].e;
  auto at = [&](u64 i) -> u64 {
    u64 v = 0;
    memcpy(&v, (char *)base + i * (bits / 8), bits / 8);
    return v;
  };
  // runs of equal values; an index outside the table is left to the concrete run
  z3::expr r = Z->bv_val((uint64_t)at(0), bits);
  for (u64 i = 1; i < n; i++)
    if (at(i) != at(i - 1)) r = z3::ite(z3::uge(t, Z->bv_val((uint64_t)i, ibits)), Z->bv_val((uint64_t)at(i), bits), r);
  if (ibits >= 10 || n < (1ull << ibits)) {
    z3::expr in = z3::ult(t, Z->bv_val((uint64_t)n, ibits));
    u64 iv;
    memcpy(&iv, &nodes[ix].dval, 8);
    branch(mkZ3Bool(in, iv < n), iv < n);
    if (iv >= n) return 0;
  }
  return mkBV(r, bits, res);
}
// A bit-vector term as an integer polynomial in its bytes: linear arithmetic mod
// 2^n is exact as soon as the final range fits.
struct LinBV { std::map<std::string, mpz_class> c; mpz_class k; };
static std::map<std::string, std::pair<int, int>> byteRange;
static bool linRange(const LinBV &l, mpz_class &lo, mpz_class &hi) {
  lo = hi = l.k;
  for (auto &t : l.c) {
    auto r = byteRange.find(t.first);
    if (r == byteRange.end()) return false;
    mpz_class a = t.second * r->second.first, b = t.second * r->second.second;
    lo += a < b ? a : b;
    hi += a < b ? b : a;
  }
  return true;
}
static bool linNorm(LinBV &l, unsigned bits) {  // choose the representative that fits [0, 2^bits)
  mpz_class m = mpz_class(1) << bits, h = m / 2, lo, hi;
  for (auto it = l.c.begin(); it != l.c.end();) {
    mpz_class &v = it->second;
    v %= m;
    if (v < 0) v += m;
    if (v >= h) v -= m;
    if (v == 0) it = l.c.erase(it);
    else ++it;
  }
  l.k %= m;
  if (l.k < 0) l.k += m;
  if (!linRange(l, lo, hi)) return false;
  if (lo < 0) { l.k += m; lo += m; hi += m; }
  if (lo >= m) { l.k -= m; lo -= m; hi -= m; }
  return lo >= 0 && hi < m;
}
static bool linOf(const z3::expr &e, LinBV &out, int depth = 0) {
  if (depth > 24 || !e.is_bv()) return false;
  unsigned bits = e.get_sort().bv_size();
  if (e.is_numeral()) { out.k = mpz_class(e.get_decimal_string(0)); out.c.clear(); return true; }
  if (!e.is_app()) return false;
  auto k = e.decl().decl_kind();
  unsigned n = e.num_args();
  switch (k) {
  case Z3_OP_UNINTERPRETED:
    if (n || bits != 8) return false;
    out.c[e.decl().name().str()] = 1;
    out.k = 0;
    return true;
  case Z3_OP_BADD:
    for (unsigned i = 0; i < n; i++) {
      LinBV x;
      if (!linOf(e.arg(i), x, depth + 1)) return false;
      for (auto &t : x.c) out.c[t.first] += t.second;
      out.k += x.k;
    }
    return true;
  case Z3_OP_BMUL: {
    if (n != 2) return false;
    int c = e.arg(0).is_numeral() ? 0 : e.arg(1).is_numeral() ? 1 : -1;
    if (c < 0 || !linOf(e.arg(1 - c), out, depth + 1)) return false;
    mpz_class f(e.arg(c).get_decimal_string(0));
    for (auto &t : out.c) t.second *= f;
    out.k *= f;
    return true;
  }
  case Z3_OP_CONCAT: {
    if (n != 2 || !e.arg(0).is_numeral() || mpz_class(e.arg(0).get_decimal_string(0)) != 0) return false;
    return linOf(e.arg(1), out, depth + 1) && linNorm(out, e.arg(1).get_sort().bv_size());
  }
  case Z3_OP_ZERO_EXT: return linOf(e.arg(0), out, depth + 1) && linNorm(out, e.arg(0).get_sort().bv_size());
  case Z3_OP_EXTRACT: {
    if (e.lo() != 0) return false;
    return linOf(e.arg(0), out, depth + 1);
  }
  default: return false;
  }
}
u32 rs_itof(u32 sgn, u32 bits, u32 a, u64 av) {
  if (!a || !inPath) return 0;
  if (nodes[a].k == K_BV && !divergedNow) {
    // a small integer (a digit, say) becomes an integer atom of the polynomial domain
    i64 v = sgn && bits < 64 && (av >> (bits - 1) & 1) ? (i64)(av | ~0ull << bits) : (i64)(bits < 64 ? av & ((1ull << bits) - 1) : av);
    z3::expr t = *nodes[a].e;
    LinBV lin;
    if (linOf(t, lin) && linNorm(lin, bits)) {
      mpz_class lo, hi;
      linRange(lin, lo, hi);
      if (hi < (mpz_class(1) << (bits < 54 ? (sgn ? bits - 1 : bits) : 53))) {
        Poly p;
        if (lin.k != 0) p[Mono{}] = mpq_class(lin.k);
        for (auto &c : lin.c) {
          bool fresh;
          u32 at = newAtom("byte:" + c.first, true, true, mpq_class((long)declared[c.first]), fresh);
          if (fresh) {
            atoms[at].bounded = true;
            atoms[at].lo = byteRange[c.first].first;
            atoms[at].hi = byteRange[c.first].second;
            atoms[at].e = keep(z3::expr(*Z, Z3_mk_bv2int(*Z, Z->bv_const(c.first.c_str(), 8), false)));
          }
          p[Mono{{at, 1}}] = mpq_class(c.second);
        }
        return mkReal(p, true, (double)v);
      }
    }
    if (v >= 0 && v <= 999999) {
      long hi = 9;
      auto r = z3::unknown;
      for (long h : {9l, 99l, 999l, 99999l, 999999l})
        if (v <= h && (bits >= 64 || h < (1l << bits))) {
          hi = h;
          r = query(z3::ugt(t, Z->bv_val((uint64_t)h, bits)), nullptr);
          if (r == z3::unsat) break;
        }
      unsigned w = 4;
      while ((1l << w) <= hi) w++;
      if (r == z3::unsat) {
        bool fresh;
        u32 at = newAtom("i2f:" + std::to_string(a), true, true, mpq_class((long)v), fresh);
        if (fresh) {
          atoms[at].bounded = true;
          atoms[at].lo = 0;
          atoms[at].hi = hi;
          z3::expr low = bits > w ? t.extract(w - 1, 0) : t;
          atoms[at].e = keep(z3::expr(*Z, Z3_mk_bv2int(*Z, low, false)));
        }
        return mkReal(atomPoly(at), true, (double)v);
      }
    }
  }
  rs_conc(a, bits, av);
  return 0;
}
u32 rs_bool(u32 op, u32 a, u32 av, u32 b, u32 bv) {
  if (!inPath) return 0;
  return outBool(bBin(op == 0 ? B_AND : op == 1 ? B_OR : B_XOR, asBool(a, av), asBool(b, bv)));
}
u32 rs_boolite(u32 c, u32 cv, u32 a, u32 av, u32 b, u32 bv) {
  if (!inPath) return 0;
  u32 C = asBool(c, cv), A = asBool(a, av), Bn = asBool(b, bv);
  if (C == 1) return outBool(A);
  if (C == 2) return outBool(Bn);
  return outBool(bBin(B_OR, bBin(B_AND, C, A), bBin(B_AND, bNot(C), Bn)));
}
static u32 swId, swBits;
static u64 swVal;
static bool swDone;
void rs_switch_begin(u32 id, u32 bits, u64 v) { swId = id; swBits = bits; swVal = v; swDone = false; if (isFloatNode(id)) { rs_conc(id, bits, v); swDone = true; } }
void rs_switch_case(u64 cv) {
  if (!swId || swDone || !inPath) return;
  bool c = swVal == cv;
  branch(mkZ3Bool(*nodes[swId].e == Z->bv_val((uint64_t)cv, nodes[swId].bits), c), c);
  if (c) swDone = true;
}
void rs_strlen(void *addr) {
  if (pages.empty() || !inPath) return;
  for (const char *p = (const char *)addr;; p++) {
    u32 id = rs_load((void *)p, 1);
    if (id) { bool z = *p == 0; branch(mkZ3Bool(*nodes[id].e == Z->bv_val(0, 8), z), z); }
    if (!*p) break;
  }
}
void rs_ctype(u32 which, u32 id, u32 v) {
  if (!id || !inPath) return;
  z3::expr x = *nodes[id].e;
  int b = nodes[id].bits;
  auto rng = [&](int lo, int hi) { return z3::uge(x, Z->bv_val(lo, b)) && z3::ule(x, Z->bv_val(hi, b)); };
  z3::expr r = Z->bool_val(false);
  bool c = false;
  switch (which) {
  case 0: r = rng(9, 13) || x == Z->bv_val(32, b); c = (v >= 9 && v <= 13) || v == 32; break;
  case 1: r = rng('0', '9'); c = v >= '0' && v <= '9'; break;
  case 2: r = rng('a', 'z') || rng('A', 'Z'); c = (v >= 'a' && v <= 'z') || (v >= 'A' && v <= 'Z'); break;
  default: r = rng('a', 'z') || rng('A', 'Z') || rng('0', '9'); c = (v >= 'a' && v <= 'z') || (v >= 'A' && v <= 'Z') || (v >= '0' && v <= '9'); break;
  }
  branch(mkZ3Bool(r, c), c);
}

// ------------------------------------------------------------------ harness API
// A function called rs_h_* receives the shadows of its arguments in rs_args.
static double retD(double v, u32 id) {
  rs_ret[0] = id;
  rs_retvalid = id != 0;
  return v;
}
static i64 inputFor(const char *name, i64 lo, i64 hi) {
  auto it = curIn.find(name);
  i64 v = it != curIn.end() ? it->second : (lo <= 0 && 0 <= hi ? 0 : lo);
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
static u32 intAtom(const char *name, i64 lo, i64 hi, i64 &v) {
  v = inputFor(name, lo, hi);
  auto it = atomIdx.find(name);
  if (it != atomIdx.end()) return it->second;
  Atom a;
  a.name = name;
  a.isInt = true;
  a.val = mpq_class((long)v);
  a.lo = mpq_class((long)lo);
  a.hi = mpq_class((long)hi);
  a.bounded = true;
  a.e = keep(Z->int_const(name));
  atoms.push_back(a);
  u32 id = atoms.size() - 1;
  atomIdx[name] = id;
  if (!replayMode) {
    slv->add(*a.e >= Z->int_val((int64_t)lo));
    slv->add(*a.e <= Z->int_val((int64_t)hi));
  }
  declared[name] = v;
  declKind[name] = 0;
  declExpr[name] = a.e;
  return id;
}
// k * 2^-shift with k in [lo,hi]
double rs_h_dyadic(const char *name, long lo, long hi, int shift) {
  i64 v;
  if (pinnedPath && !queryVars.count(name) && curIn.count(name)) { v = inputFor(name, lo, hi); declared[name] = v; return retD(std::ldexp((double)v, -shift), 0); }
  if (lo == hi) return retD(std::ldexp((double)lo, -shift), 0);
  u32 at = intAtom(name, lo, hi, v);
  mpq_class sc = 1;
  if (shift >= 0) mpq_div_2exp(sc.get_mpq_t(), sc.get_mpq_t(), shift);
  else mpq_mul_2exp(sc.get_mpq_t(), sc.get_mpq_t(), -shift);
  Poly p;
  p[Mono{{at, 1}}] = sc;
  double d = std::ldexp((double)v, -shift);
  return retD(d, mkReal(p, true, d));
}
// a variable the code under test never sees
double rs_h_query(const char *name, long lo, long hi, int shift) {
  queryVars.insert(name);
  return rs_h_dyadic(name, lo, hi, shift);
}
// an integer decided by forking: afterwards it is concrete on the path
long rs_h_choice(const char *name, long lo, long hi) {
  i64 v;
  rs_retvalid = 0;
  if (lo == hi) return lo;
  if (pinnedPath && curIn.count(name)) { v = inputFor(name, lo, hi); declared[name] = v; return v; }
  u32 at = intAtom(name, lo, hi, v);
  for (i64 k = lo; k < hi; k++) {  // a fixed chain of questions, so that a recorded prefix replays
    Poly p = atomPoly(at);
    addTo(p, pconst(mpq_class((long)k)), -1);
    branch(mkLit(p, 2, k == v), k == v);
    if (k == v) break;
  }
  rs_retvalid = 0;
  return v;
}
// an arbitrary double, every bit pattern (IEEE theory)
double rs_h_fp(const char *name) {
  auto it = curIn.find(name);
  i64 v = it != curIn.end() ? it->second : 0;
  double d;
  memcpy(&d, &v, 8);
  z3::expr e = Z->constant(name, Z->fpa_sort(11, 53));
  declared[name] = v;
  declKind[name] = 2;
  declExpr[name] = keep(e);
  return retD(d, mkFP(e, d));
}
unsigned char rs_h_byte(const char *name, int lo, int hi) {
  i64 v = inputFor(name, lo, hi);
  z3::expr e = Z->bv_const(name, 8);
  byteRange[name] = {lo, hi};
  if (!replayMode) slv->add(z3::uge(e, Z->bv_val(lo, 8)) && z3::ule(e, Z->bv_val(hi, 8)));
  declared[name] = v;
  declKind[name] = 1;
  declExpr[name] = keep(e);
  u32 id = mkBV(e, 8, (u64)v);
  rs_ret[0] = id;
  rs_retvalid = id != 0;
  return (unsigned char)v;
}
void rs_h_assume(int c) {
  u32 id = (u32)rs_args[0];
  if (!inPath) return;
  if (id && nodes[id].k == K_BV) id = mkZ3Bool(*nodes[id].e != Z->bv_val(0, nodes[id].bits), c);
  assumeNode(id ? id : mkConstBool(c));
}
void rs_h_assert(const char *msg, int c) {
  u32 id = (u32)rs_args[1];
  if (!inPath) return;
  if (id && nodes[id].k == K_BV) id = mkZ3Bool(*nodes[id].e != Z->bv_val(0, nodes[id].bits), c);
  assertNode(msg, id ? id : mkConstBool(c));
}
// non-forking boolean terms (handles are node ids)
static int hb(u32 n) { return (int)n; }
int rs_h_b_const(int v) { rs_retvalid = 0; return hb(mkConstBool(v)); }
static int hcmp(double a, double b, int mask) {
  u32 ia = force((u32)rs_args[0]), ib = force((u32)rs_args[1]);
  rs_retvalid = 0;
  bool c = a < b ? mask & 1 : a == b ? (mask & 2) >> 1 : a > b ? (mask & 4) >> 2 : 0;
  if (!ia && !ib) return hb(mkConstBool(c));
  if ((ia && nodes[ia].k == K_FP) || (ib && nodes[ib].k == K_FP)) {
    z3::expr x = fpOf(ia, a), y = fpOf(ib, b), r = Z->bool_val(false);
    if (mask & 1) r = r || z3::expr(*Z, Z3_mk_fpa_lt(*Z, x, y));
    if (mask & 2) r = r || z3::expr(*Z, Z3_mk_fpa_eq(*Z, x, y));
    if (mask & 4) r = r || z3::expr(*Z, Z3_mk_fpa_gt(*Z, x, y));
    return hb(mkZ3Bool(r, c));
  }
  if ((!ia && !std::isfinite(a)) || (!ib && !std::isfinite(b))) return hb(mkConstBool(c));
  Key5 key{200 + (u32)mask, ia, ib, dbits(ia, a), dbits(ib, b)};
  auto hit = memo.find(key);
  if (hit != memo.end()) return hb(hit->second);
  bool ex = (!ia || nodes[ia].exact) && (!ib || nodes[ib].exact);
  Poly x = polyOf(ia, a);
  addTo(x, polyOf(ib, b), -1);
  u32 l = mkLit(x, mask, c, ex);
  if (l > 2) memo[key] = l;
  return hb(l);
}
int rs_h_b_lt(double a, double b) { return hcmp(a, b, 1); }
int rs_h_b_le(double a, double b) { return hcmp(a, b, 3); }
int rs_h_b_eq(double a, double b) { return hcmp(a, b, 2); }
// identical as IEEE data (NaN equals the same NaN expression, -0 differs from +0)
int rs_h_b_same(double a, double b) {
  u32 ia = (u32)rs_args[0], ib = (u32)rs_args[1];
  rs_retvalid = 0;
  bool c = memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b));
  if (ia == ib && ia) return hb(1);
  if (!ia && !ib) return hb(mkConstBool(c));
  if ((ia && nodes[ia].k == K_FP) || (ib && nodes[ib].k == K_FP)) return hb(mkZ3Bool(fpOf(ia, a) == fpOf(ib, b), c));
  rs_args[0] = ia; rs_args[1] = ib;
  return hcmp(a, b, 2);
}
int rs_h_b_not(int a) { rs_retvalid = 0; return hb(bNot(a)); }
int rs_h_b_and(int a, int b) { rs_retvalid = 0; return hb(bBin(B_AND, a, b)); }
int rs_h_b_or(int a, int b) { rs_retvalid = 0; return hb(bBin(B_OR, a, b)); }
int rs_h_b_xor(int a, int b) { rs_retvalid = 0; return hb(bBin(B_XOR, a, b)); }
// indicator: 1.0 if b else 0.0, as a term
double rs_h_b_num(int b) {
  if (b == 1) return retD(1, 0);
  if (b == 2) return retD(0, 0);
  int v = eval3(b);
  if (v >= 0) return retD(v, 0);
  bool fresh;
  u32 at = newAtom("ite:" + std::to_string(b), true, true, mpq_class(nodes[b].cb ? 1 : 0), fresh);
  if (fresh) {
    atoms[at].bounded = true;
    atoms[at].lo = 0;
    atoms[at].hi = 1;
    atoms[at].e = keep(z3::ite(boolExpr(b), Z->int_val(1), Z->int_val(0)));
  }
  double d = nodes[b].cb;
  return retD(d, mkReal(atomPoly(at), true, d));
}
void rs_h_b_assert(const char *msg, int b) { if (inPath) assertNode(msg, b); }
void rs_h_b_assume(int b) { if (inPath) assumeNode(b); }
int rs_h_b_branch(int b) {  // fork on it
  rs_retvalid = 0;
  bool c = b == 1 ? true : b == 2 ? false : nodes[b].cb;
  branch(b, c);
  return c;
}
int rs_h_b_eval3(int b) { rs_retvalid = 0; return b == 1 ? 1 : b == 2 ? 0 : eval3(b); }
void rs_h_observe(const char *tag, double v) { observed.push_back({tag, v}); }
void rs_h_heap(int descending) { arena::mode = descending; }
void rs_h_fail(const char *msg) { assertNode(msg, 2); }
int rs_h_tier(void) { rs_retvalid = 0; declared["tier"] = optTier; return optTier; }
int rs_h_symbolic(void) { rs_retvalid = 0; return 1; }
void rs_h_abandon(void) { S->assumeCut++; endPath(); }
int rs_h_is_sym(double v) { rs_retvalid = 0; (void)v; return rs_args[0] != 0; }
double rs_h_peek(double v) { return retD(v, 0); }
long rs_h_live(void) { rs_retvalid = 0; return arena::live; }
double rs_h_concretize(double v) { u32 id = (u32)rs_args[0]; rs_concf(id, v); return retD(v, 0); }
// the exact rational is a double equal to the concrete one? (used by validation only)
}  // extern C

// ------------------------------------------------------------------ running one path
static void resetPath() {
  for (auto *e : exprPool) delete e;
  exprPool.clear();
  nodes.clear();
  atoms.clear();
  anyInv = false;
  forms.clear();
  formIdx.clear();
  litIdx.clear();
  memo.clear();
  epoch = 1;
  realIdx[0].clear();
  realIdx[1].clear();
  atomIdx.clear();
  knownZ3.clear();
  anyPinned = false;
  declared.clear();
  declKind.clear();
  declExpr.clear();
  decisions.clear();
  observed.clear();
  divergedNow = false;
  queryVars.clear();
  pathBranches = pathQueries = 0;
  for (auto &p : pages) free(p.second);
  pages.clear();
  lastPg = ~0ull;
  lastP = nullptr;
  rs_argfn = nullptr;
  rs_retvalid = 0;
  arena::reset();
  arena::mode = 0;
  nodes.reserve(1024);
  Node n;
  n.k = K_BOOL;
  nodes.push_back(n);  // 0 unused
  n.op = B_TRUE; n.cb = true;
  nodes.push_back(n);
  n.op = B_FALSE; n.cb = false;
  nodes.push_back(n);
}
static void writeCur(const Inputs &in) {
  std::string s;
  for (auto &i : in) s += i.first + " " + std::to_string(i.second) + "\n";
  if (s.size() >= sizeof(W->cur)) s.resize(sizeof(W->cur) - 1);
  memcpy(W->cur, s.c_str(), s.size() + 1);
}
static std::vector<std::string> globSnap;
static void restoreGlobals() {
  if (globSnap.empty() && rs_glob_n) {
    for (u64 i = 0; i < rs_glob_n; i++) globSnap.emplace_back(rs_glob_ptr[i], rs_glob_size[i]);
    return;
  }
  for (u64 i = 0; i < rs_glob_n; i++) memcpy(rs_glob_ptr[i], globSnap[i].data(), globSnap[i].size());
}
static void runPath(const Item &it, std::vector<Item> &items, std::vector<Violation> &viol) {
  resetPath();
  restoreGlobals();
  if (!replayMode) {
    if (slv && slvUses++ < 100) slv->pop();
    else {
      delete slv;
      slv = new z3::solver(*Z);
      z3::params p(*Z);
      p.set("timeout", (unsigned)optQueryMs);
      if (getenv("RS_ARITH")) p.set("arith.solver", (unsigned)atoi(getenv("RS_ARITH")));
      slv->set(p);
      slvUses = 0;
    }
    slv->push();
  }
  curIn = it.in;
  expected = it.dec;
  pinnedPath = it.in.count("__pin") && it.in.at("__pin");
  outItems = &items;
  outViol = &viol;
  writeCur(it.in);
  W->running = 1;
  timerOn();
  inPath = true;
  if (setjmp(pathEnd) == 0) {
    try {
      harness();
      S->completed++;
    } catch (z3::exception &e) {
      fprintf(stderr, "z3 exception: %s\n", e.msg());
      _exit(71);
    } catch (...) {
      Inputs cur = declared;
      for (auto &x : curIn) cur.insert(x);
      violation("exception", "the code under test let an exception escape", cur);
    }
  }
  inPath = false;
  timerOff();
  W->running = 0;
  if (decisions.size() < expected.size() && !divergedNow) S->diverged++;
  S->paths++;
  u64 md = S->maxDepth, d = decisions.size();
  while (d > md && !S->maxDepth.compare_exchange_weak(md, d)) {}
}
static void onAlarm(int) {
  W->reason = 1;
  _exit(78);
}

// ------------------------------------------------------------------ serialisation
static void putInputs(FILE *f, const Inputs &in) {
  fprintf(f, "%zu\n", in.size());
  for (auto &i : in) fprintf(f, "%s %lld\n", i.first.c_str(), (long long)i.second);
}
static Inputs getInputs(FILE *f) {
  size_t n;
  Inputs in;
  if (fscanf(f, "%zu\n", &n) != 1) return in;
  for (size_t i = 0; i < n; i++) {
    char b[256];
    long long v;
    if (fscanf(f, "%255s %lld\n", b, &v) == 2) in[b] = v;
  }
  return in;
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\', r += c;
    else if (c == '\n') r += "\\n";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static std::string jIn(const Inputs &in) {
  std::string s = "{";
  for (auto &i : in) s += (s.size() > 1 ? ", " : "") + ("\"" + jesc(i.first) + "\": " + std::to_string(i.second));
  return s + "}";
}

static void workerMain(int wi, std::vector<Item> stack, double deadline, FILE *out, bool wantSamples) {
  W = &S->w[wi];
  W->reason = 0;
  signal(SIGALRM, onAlarm);
  Z = new z3::context();
  std::vector<Violation> viol;
  std::vector<Sample> samples;
  double t0 = now();
  int n = 0;
  while (!stack.empty() && !S->stop) {
    if (now() > deadline) break;
    if (n > 0 && S->want > 0 && stack.size() >= 2) break;
    if (n >= 400 || now() - t0 > 20) break;
    if (S->paths >= optMaxPaths) break;
    Item it = std::move(stack.back());
    stack.pop_back();
    std::vector<Item> ni;
    runPath(it, ni, viol);
    n++;
    for (auto &x : ni) stack.push_back(std::move(x));
    if (wantSamples && samples.size() < 2 && !observed.empty() && !divergedNow) {
      Inputs cur = declared;
      samples.push_back({cur, observed, pathBranches, pathQueries});
    }
    if (!viol.empty()) break;
  }
  fprintf(out, "V %zu\n", viol.size());
  for (auto &v : viol) {
    std::string m = v.msg;
    for (auto &c : m) if (c == '\n') c = ' ';
    fprintf(out, "%s\n%s\n", v.kind.c_str(), m.c_str());
    putInputs(out, v.in);
  }
  fprintf(out, "I %zu\n", stack.size());
  for (auto &i : stack) {
    putInputs(out, i.in);
    fprintf(out, "%s.\n", i.dec.c_str());
  }
  fprintf(out, "S %zu\n", samples.size());
  for (auto &s : samples) {
    putInputs(out, s.in);
    fprintf(out, "%llu %llu %zu\n", (unsigned long long)s.branches, (unsigned long long)s.queries, s.obs.size());
    for (auto &o : s.obs) fprintf(out, "%s %.17g\n", o.first.c_str(), o.second);
  }
  fprintf(out, "END\n");
  fclose(out);
  for (u64 i = 0; i < rs_cov_n; i++) if (rs_cov_ptr[i]) S->cov[i] = 1;
  _exit(0);
}

int main(int argc, char **argv) {
  const char *outFile = nullptr, *replay = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return argv[++i]; };
    if (a == "--budget") optBudget = atof(nx());
    else if (a == "--jobs") optJobs = atoi(nx());
    else if (a == "--out") outFile = nx();
    else if (a == "--max-viol") optMaxViol = atoi(nx());
    else if (a == "--query-ms") optQueryMs = atoi(nx());
    else if (a == "--path-timeout") optPathTimeout = atof(nx());
    else if (a == "--max-paths") optMaxPaths = atoll(nx());
    else if (a == "--tier") optTier = atoi(nx());
    else if (a == "--replay") replay = nx();
    else if (a == "-v") optVerbose = true;
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 64; }
  }
  size_t sz = sizeof(Shared) + rs_cov_n + 16;
  S = (Shared *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  signal(SIGPIPE, SIG_IGN);
  if (replay) {
    W = &S->w[0];
    signal(SIGALRM, onAlarm);
    Z = new z3::context();
    replayMode = true;
    Item it;
    FILE *f = fopen(replay, "r");
    it.in = getInputs(f);
    fclose(f);
    std::vector<Item> ni;
    std::vector<Violation> v;
    runPath(it, ni, v);
    for (auto &o : observed) printf("%s %.17g\n", o.first.c_str(), o.second);
    for (auto &x : v) printf("FAIL %s\n", x.msg.c_str());
    fprintf(stderr, "branches %llu mismatch %llu diverged %llu\n", (unsigned long long)pathBranches, (unsigned long long)S->mismatch.load(), (unsigned long long)S->diverged.load());
    return v.empty() ? 0 : 1;
  }
  double t0 = now(), deadline = t0 + optBudget;
  std::deque<Item> work;
  work.push_back(Item());
  struct Run { pid_t pid; int fd; FILE *tmp; bool active; std::string buf; };
  std::vector<Run> runs(optJobs);
  for (auto &r : runs) r.active = false;
  int active = 0;
  std::vector<Violation> viol;
  std::vector<Sample> samples;
  u64 lost = 0, crashes = 0;
  while (true) {
    bool over = now() > deadline || S->stop || S->paths >= optMaxPaths;
    if (over && active == 0) break;
    if (!over) {
      for (int i = 0; i < optJobs && !work.empty(); i++) {
        if (runs[i].active) continue;
        // hand out a share of the work
        int idle = 0;
        for (auto &r : runs) if (!r.active) idle++;
        size_t take = std::max<size_t>(1, std::min<size_t>(64, work.size() / std::max(1, idle)));
        std::vector<Item> st;
        for (size_t k = 0; k < take && !work.empty(); k++) { st.push_back(std::move(work.front())); work.pop_front(); }
        int fd[2];
        if (pipe(fd)) die("pipe");
        fflush(nullptr);
        bool wantS = samples.size() < (size_t)optSamples;
        S->w[i].running = 0;
        pid_t p = fork();
        if (p < 0) die("fork");
        if (p == 0) {
          close(fd[0]);
          FILE *o = fdopen(fd[1], "w");
          workerMain(i, std::move(st), deadline, o, wantS);
        }
        close(fd[1]);
        runs[i] = {p, fd[0], nullptr, true, ""};
        active++;
      }
    }
    int idle = 0;
    for (auto &r : runs) if (!r.active) idle++;
    S->want = work.empty() && !over ? idle : 0;
    if (active == 0 && work.empty()) break;
    std::vector<pollfd> pf;
    std::vector<int> which;
    for (int i = 0; i < optJobs; i++)
      if (runs[i].active) { pf.push_back({runs[i].fd, POLLIN, 0}); which.push_back(i); }
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < pf.size(); k++) {
      int i = which[k];
      if (!(pf[k].revents & (POLLIN | POLLHUP))) {
        if (now() > deadline + optQueryMs / 1000.0 + 30) kill(runs[i].pid, SIGKILL);
        continue;
      }
      char b[65536];
      ssize_t n = read(runs[i].fd, b, sizeof b);
      if (n > 0) { runs[i].buf.append(b, n); continue; }
      close(runs[i].fd);
      int st;
      waitpid(runs[i].pid, &st, 0);
      runs[i].active = false;
      active--;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      std::string buf = std::move(runs[i].buf);
      if (!ok) {
        crashes++;
        Worker &w = S->w[i];
        if (w.running && !(now() > deadline + optQueryMs / 1000.0 + 29)) {
          Inputs in;
          char *p = w.cur;
          while (*p) {
            char nm[256];
            long long v;
            int adv;
            if (sscanf(p, "%255s %lld\n%n", nm, &v, &adv) != 2) break;
            in[nm] = v;
            p += adv;
          }
          std::string m;
          if (w.reason == 1) m = "the code under test did not terminate within the path time limit";
          else if (WIFSIGNALED(st)) m = std::string("the code under test crashed: signal ") + strsignal(WTERMSIG(st));
          else m = "the code under test exited with status " + std::to_string(WEXITSTATUS(st));
          viol.push_back({m, in, w.reason == 1 ? "hang" : "crash"});
          if ((int)viol.size() >= optMaxViol) S->stop = 1;
        }
        lost++;
        continue;
      }
      FILE *f = fmemopen((void *)buf.data(), buf.size(), "r");
      char line[1 << 16];
      size_t nv = 0, nit = 0, ns = 0;
      if (fscanf(f, "V %zu\n", &nv) != 1) nv = 0;
      for (size_t q = 0; q < nv; q++) {
        Violation v;
        if (!fgets(line, sizeof line, f)) break;
        v.kind = line; v.kind.pop_back();
        if (!fgets(line, sizeof line, f)) break;
        v.msg = line; v.msg.pop_back();
        v.in = getInputs(f);
        viol.push_back(v);
      }
      if (fscanf(f, "I %zu\n", &nit) != 1) nit = 0;
      for (size_t q = 0; q < nit; q++) {
        Item it;
        it.in = getInputs(f);
        if (!fgets(line, sizeof line, f)) break;
        it.dec = line;
        while (!it.dec.empty() && (it.dec.back() == '\n' || it.dec.back() == '.')) it.dec.pop_back();
        work.push_back(std::move(it));
      }
      if (fscanf(f, "S %zu\n", &ns) != 1) ns = 0;
      for (size_t q = 0; q < ns; q++) {
        Sample s;
        s.in = getInputs(f);
        unsigned long long a, bq;
        size_t no;
        if (fscanf(f, "%llu %llu %zu\n", &a, &bq, &no) != 3) break;
        s.branches = a; s.queries = bq;
        for (size_t z = 0; z < no; z++) {
          char nm[256];
          double d;
          if (fscanf(f, "%255s %lf\n", nm, &d) == 2) s.obs.push_back({nm, d});
        }
        if (samples.size() < (size_t)optSamples) samples.push_back(s);
      }
      fclose(f);
      if ((int)viol.size() >= optMaxViol) S->stop = 1;
    }
  }
  bool exhaustive = work.empty() && !lost && !S->unknown && !S->diverged && viol.empty() && !(S->paths >= optMaxPaths);
  FILE *o = outFile ? fopen(outFile, "w") : stdout;
  fprintf(o, "{\n");
#define ST(x) fprintf(o, " \"%s\": %llu,\n", #x, (unsigned long long)S->x.load())
  ST(paths); ST(branches); ST(queries); ST(sat); ST(unsat); ST(unknown); ST(assertsSolver); ST(assertsTrivial); ST(assertsUnknown);
  ST(inexactBranches); ST(inexactAsserts); ST(diverged); ST(concretized); ST(assumeCut); ST(forks); ST(rangeDecided); ST(maxDepth); ST(mismatch); ST(completed); ST(pinned);
  fprintf(o, " \"solver_s\": %.3f,\n \"wall_s\": %.3f,\n \"pending\": %zu,\n \"lost_workers\": %llu,\n \"exhaustive\": %s,\n", S->solverUs / 1e6, now() - t0, work.size(), (unsigned long long)lost, exhaustive ? "true" : "false");
  fprintf(o, " \"violations\": [");
  for (size_t i = 0; i < viol.size(); i++)
    fprintf(o, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"inputs\": %s}", i ? "," : "", jesc(viol[i].kind).c_str(), jesc(viol[i].msg).c_str(), jIn(viol[i].in).c_str());
  fprintf(o, "],\n \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) {
    fprintf(o, "%s\n  {\"inputs\": %s, \"branches\": %llu, \"queries\": %llu, \"obs\": [", i ? "," : "", jIn(samples[i].in).c_str(), (unsigned long long)samples[i].branches, (unsigned long long)samples[i].queries);
    for (size_t k = 0; k < samples[i].obs.size(); k++) fprintf(o, "%s[\"%s\", \"%.17g\"]", k ? ", " : "", jesc(samples[i].obs[k].first).c_str(), samples[i].obs[k].second);
    fprintf(o, "]}");
  }
  fprintf(o, "],\n \"functions\": [");
  const char *p = rs_cov_names;
  bool first = true;
  for (u64 i = 0; i < rs_cov_n; i++) {
    const char *e = strchr(p, '\n');
    if (S->cov[i]) { fprintf(o, "%s\"%.*s\"", first ? "" : ", ", (int)(e - p), p); first = false; }
    p = e + 1;
  }
  fprintf(o, "]\n}\n");
  if (outFile) fclose(o);
  return viol.empty() ? 0 : 1;
}
