// Symbolic runtime: executes the instrumented program on real-number
// expressions, forks the process at every comparison whose two outcomes are
// both satisfiable, and decides obligations with normal forms and Z3.
#include <cxxabi.h>
#include <execinfo.h>
#include <fenv.h>
#include <gmpxx.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <unordered_map>

#include "poly.hh"
#include "sym.hh"

using namespace poly;
typedef mpf_class F;
static const int PREC = 320;

// ------------------------------------------------------------------ shared
struct LabelRec { char name[160]; std::atomic<long> checked, byNF, bySolver, undecided, violated, reached; };
struct Shared {
  std::atomic<int> lock, tokens, truncated;
  std::atomic<long> paths, forks, queries, qsat, qunsat, qunknown, solverUs, assumedOut, leaks, unsupported, infeasible, tooBig, cex, stopped;
  std::atomic<int> nlabels;
  LabelRec labels[1500];
  std::atomic<char> fn[20000];
  char leakMsg[20][600];
  std::atomic<int> nLeakMsg;
};
static Shared* S;
static std::string g_out = ".";
static const char* g_scn = "";
static double g_deadline = 0;
static long g_rlimit = 4000000;
static bool g_holdsToken = true, g_par = true;
static int g_children = 0;
static bool g_thorough = false, g_trace = false;
static std::vector<std::string> g_notes;

static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
static void lockS() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(20); } }
static void unlockS() { S->lock.store(0); }
static LabelRec& label(const std::string& l) {
  std::string n = std::string(g_scn) + "/" + l;
  if (n.size() > 159) n.resize(159);
  int k = S->nlabels.load();
  for (int i = 0; i < k; ++i) if (n == S->labels[i].name) return S->labels[i];
  lockS();
  k = S->nlabels.load();
  for (int i = 0; i < k; ++i) if (n == S->labels[i].name) { unlockS(); return S->labels[i]; }
  if (k >= 1499) { unlockS(); return S->labels[1499]; }
  strcpy(S->labels[k].name, n.c_str());
  S->nlabels.store(k + 1);
  unlockS();
  return S->labels[k];
}
extern "C" {
struct SymRec { const char* name; long flag; };
extern SymRec __start_symrecs[] __attribute__((weak));
extern SymRec __stop_symrecs[] __attribute__((weak));
}
static void flushFns() {
  if (!__start_symrecs) return;
  long n = __stop_symrecs - __start_symrecs;
  for (long i = 0; i < n && i < 20000; ++i) if (__start_symrecs[i].flag) S->fn[i].store(1);
}
struct TrapOff {  // no FP traps inside the runtime
  fenv_t e;
  TrapOff() { feholdexcept(&e); }
  ~TrapOff() { fesetenv(&e); }
};
static void waitChildren() {
  int st;
  while (g_children > 0) { if (waitpid(-1, &st, 0) > 0) --g_children; else break; }
}
[[noreturn]] static void endPath(std::atomic<long>* c) {
  flushFns();
  if (c) c->fetch_add(1);
  if (g_holdsToken) { S->tokens.fetch_add(1); g_holdsToken = false; }
  waitChildren();
  _exit(0);
}

// ------------------------------------------------------------------ vars
struct Var {
  std::string name;
  char kind;       // R real, I int, D derived sqrt, T angle (transcendental), P pi
  bool hasLo = false, hasHi = false; Q lo, hi;
  bool harness = false;
  std::string uf; std::vector<uint32_t> ufArgs;  // node ids of the arguments
  Frac def;        // D: r = sqrt(def)
  std::vector<uint32_t> deps;
  int uses = 0;    // number of path constraints it appears in
  Z3_ast ast = nullptr;
};
struct Val { bool exact = true; Q q; F f; };
static std::vector<Var> vars;
static std::vector<Val> model;
static bool modelValid = true;
static std::vector<std::pair<std::string, long>> choices;  // case splits
static std::mt19937_64 rng(12345);
static uint32_t g_pi = 0;

struct AngleInfo { Frac c, s; bool acosLike; bool halfOpen; };
static std::map<uint32_t, AngleInfo> angles;

static std::string vname(uint32_t v) { return v < vars.size() ? vars[v].name : "?"; }
static F toF(const Val& v) { if (!v.exact) return v.f; return F(v.q, PREC); }
static double toD(const Val& v) { return v.exact ? v.q.get_d() : v.f.get_d(); }

static uint32_t newVar(const std::string& name, char kind) {
  Var v; v.name = name; v.kind = kind;
  vars.push_back(v); model.push_back(Val());
  return vars.size() - 1;
}

// evaluation under the model; inexact values make the sign unknown near zero
static bool allExact(const Poly& p) {
  for (auto& t : p) for (auto& x : t.first) if (!model[x.first].exact) return false;
  return true;
}
static Q evalQ(const Poly& p) {
  Q r = 0;
  for (auto& t : p) {
    Q m = t.second;
    for (auto& x : t.first) for (uint32_t k = 0; k < x.second; ++k) m *= model[x.first].q;
    r += m;
  }
  return r;
}
static F evalF(const Poly& p, F* mag = nullptr) {
  F r(0, PREC), a(0, PREC);
  for (auto& t : p) {
    F m(t.second, PREC);
    for (auto& x : t.first) { F v = toF(model[x.first]); for (uint32_t k = 0; k < x.second; ++k) m *= v; }
    r += m; a += abs(m);
  }
  if (mag) *mag = a;
  return r;
}
// -1,0,1 or 2 = unknown
static int signM(const Poly& p) {
  if (allExact(p)) return sgn(evalQ(p));
  F mag(0, PREC); F v = evalF(p, &mag);
  F lim(0, PREC); lim = mag * F("1e-35", PREC);
  if (abs(v) > lim) return sgn(v);
  return 2;
}
static Val evalFrac(const Frac& f) {
  Val r; bool ex = allExact(f.num);
  for (auto& d : f.den) ex = ex && allExact(factor(d.first));
  if (ex) {
    Q n = evalQ(f.num);
    for (auto& d : f.den) { Q g = evalQ(factor(d.first)); if (g == 0) { r.q = 0; return r; } for (int k = 0; k < d.second; ++k) n /= g; }
    r.q = n; return r;
  }
  F n = evalF(f.num);
  for (auto& d : f.den) { F g = evalF(factor(d.first)); if (sgn(g) == 0) { r.q = 0; return r; } for (int k = 0; k < d.second; ++k) n /= g; }
  r.exact = false; r.f = F(n, PREC); return r;
}
static bool isSquare(const mpz_class& z, mpz_class& s) { if (sgn(z) < 0) return false; s = sqrt(z); return s * s == z; }
static bool isSquareQ(const Q& q, Q& s) {
  mpz_class a, b;
  if (!isSquare(q.get_num(), a) || !isSquare(q.get_den(), b)) return false;
  s = Q(a, b); s.canonicalize(); return true;
}
static Val sqrtVal(const Val& x) {
  Val r; Q s;
  if (x.exact) {
    if (x.q <= 0) { r.q = 0; return r; }
    if (isSquareQ(x.q, s)) { r.q = s; return r; }
  }
  r.exact = false; F v = toF(x); if (sgn(v) < 0) v = 0; r.f = F(sqrt(v), PREC); return r;
}
static double fracD(const Frac& f) { return toD(evalFrac(f)); }
static void recompute(uint32_t v) {
  Var& x = vars[v];
  if (x.kind == 'D') model[v] = sqrtVal(evalFrac(x.def));
  else if (x.kind == 'T' && angles.count(v) && !x.deps.empty()) {
    AngleInfo& a = angles[v]; double c = fracD(a.c), s = fracD(a.s);
    model[v] = Val(); model[v].exact = false; model[v].f = F(atan2(s, c), PREC);
  }
}

// ------------------------------------------------------------------ nodes
enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, NFN };
struct Node { Op op; uint32_t a, b; Frac* nf; double c; };
static std::vector<Node> nodes;
struct K3 { uint32_t o, a, b; bool operator==(const K3& k) const { return o == k.o && a == k.a && b == k.b; } };
struct H3 { size_t operator()(const K3& k) const { return ((size_t)k.o * 1000003u + k.a) * 1000003u + k.b; } };
static std::unordered_map<K3, uint32_t, H3> cons;
static std::unordered_map<uint64_t, uint32_t> constIds;

static const uint32_t TAG = 0x7FF5EC0Du, ITAG = 0x7FF5EC1Du;
static inline uint64_t bitsOf(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline bool isSym(double d) { return (bitsOf(d) >> 32) == TAG; }
static inline uint32_t idOf(double d) { return (uint32_t)bitsOf(d); }
static inline double mk(uint32_t id) { uint64_t b = ((uint64_t)TAG << 32) | id; double d; memcpy(&d, &b, 8); return d; }
static inline bool isFin(double d) { return (bitsOf(d) & 0x7FF0000000000000ull) != 0x7FF0000000000000ull; }
static inline bool isNan(double d) { return (bitsOf(d) & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull; }
static inline bool isInf(double d) { return (bitsOf(d) & 0x7FFFFFFFFFFFFFFFull) == 0x7FF0000000000000ull; }

static uint32_t pushNode(Op o, uint32_t a, uint32_t b) {
  K3 k{(uint32_t)o, a, b};
  auto it = cons.find(k);
  if (it != cons.end()) return it->second;
  nodes.push_back(Node{o, a, b, nullptr, 0});
  uint32_t id = nodes.size() - 1; cons[k] = id; return id;
}
// doubles that denote multiples of pi are read as exact multiples of pi
static bool piMultiple(double c, Q& q) {
  if (!isFin(c) || c == 0) return false;
  static const int n[] = {1, 2, 1, 3, 1, 4, 3, 1, 2}, d[] = {1, 1, 2, 2, 4, 1, 4, 3, 3};
  for (int i = 0; i < 9; ++i) {
    double v = M_PI * n[i] / d[i];
    if (c == v) { q = Q(n[i], d[i]); return true; }
    if (c == -v) { q = Q(-n[i], d[i]); return true; }
  }
  return false;
}
static uint32_t constNode(double c) {
  auto it = constIds.find(bitsOf(c));
  if (it != constIds.end()) return it->second;
  Frac* f = new Frac; Q q;
  if (piMultiple(c, q)) { *f = fvar(g_pi); f->num = pscale(f->num, q); }
  else *f = fconst(Q(c));
  nodes.push_back(Node{CONST, 0, 0, f, c});
  uint32_t id = nodes.size() - 1; constIds[bitsOf(c)] = id; return id;
}
static uint32_t varNode(uint32_t v) {
  uint32_t id = pushNode(VAR, v, 0);
  if (!nodes[id].nf) nodes[id].nf = new Frac(fvar(v));
  return id;
}
static uint32_t nfNode(const Frac& f) { nodes.push_back(Node{NFN, 0, 0, new Frac(f), 0}); return nodes.size() - 1; }
static inline uint32_t nid(double d) { return isSym(d) ? idOf(d) : constNode(d); }
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("expression too large") {} };
static const size_t MAXT = 6000;
static const Frac& nf(uint32_t id) {
  if (nodes[id].nf) return *nodes[id].nf;
  // iterative post-order
  std::vector<uint32_t> st{id};
  while (!st.empty()) {
    uint32_t x = st.back(); Node n = nodes[x];
    if (n.nf) { st.pop_back(); continue; }
    bool ready = true;
    if (!nodes[n.a].nf) { st.push_back(n.a); ready = false; }
    if (n.op != NEG && !nodes[n.b].nf) { st.push_back(n.b); ready = false; }
    if (!ready) continue;
    const Frac& A = *nodes[n.a].nf; Frac r;
    if (n.op == NEG) { r = A; r.num = pscale(r.num, -1); }
    else {
      const Frac& B = *nodes[n.b].nf;
      if (A.num.size() * B.num.size() > 400000 && n.op != ADD && n.op != SUB) throw TooBig();
      if (n.op == ADD) r = fadd(A, B, 1);
      else if (n.op == SUB) r = fadd(A, B, -1);
      else if (n.op == MUL) r = fmul(A, B);
      else r = fdiv(A, B);
    }
    if (r.num.size() > MAXT) throw TooBig();
    nodes[x].nf = new Frac(r);
    st.pop_back();
  }
  return *nodes[id].nf;
}
static double fromFrac(const Frac& f) {
  Q q;
  if (isConstF(f, q)) { double d = q.get_d(); if (Q(d) == q) return d; }
  return mk(nfNode(f));
}
// numeric evaluation of the raw expression under the model
static double evalNode(uint32_t id) {
  std::unordered_map<uint32_t, double> memo;
  std::vector<uint32_t> st{id};
  while (!st.empty()) {
    uint32_t x = st.back(); if (memo.count(x)) { st.pop_back(); continue; }
    Node& n = nodes[x];
    if (n.op == CONST) { memo[x] = n.c; st.pop_back(); continue; }
    if (n.op == VAR) { memo[x] = n.a == EPS ? 0 : toD(model[n.a]); st.pop_back(); continue; }
    if (n.op == NFN) { Frac a, b; splitEps(*n.nf, a, b); memo[x] = fracD(a); st.pop_back(); continue; }
    bool rd = true;
    if (!memo.count(n.a)) { st.push_back(n.a); rd = false; }
    if (n.op != NEG && !memo.count(n.b)) { st.push_back(n.b); rd = false; }
    if (!rd) continue;
    double a = memo[n.a], b = n.op == NEG ? 0 : memo[n.b];
    memo[x] = n.op == ADD ? a + b : n.op == SUB ? a - b : n.op == MUL ? a * b : n.op == DIV ? a / b : -a;
    st.pop_back();
  }
  return memo[id];
}

// ------------------------------------------------------------------ z3
static Z3_context ctx;
static volatile bool z3err = false;
static void onZ3Err(Z3_context, Z3_error_code) { z3err = true; }
static Z3_ast numeral(const Q& q, bool isInt) {
  std::string s = q.get_str();
  return Z3_mk_numeral(ctx, s.c_str(), isInt ? Z3_mk_int_sort(ctx) : Z3_mk_real_sort(ctx));
}
static Z3_ast zvar(uint32_t v) {
  if (!vars[v].ast) {
    Z3_symbol s = Z3_mk_int_symbol(ctx, v);
    vars[v].ast = Z3_mk_const(ctx, s, vars[v].kind == 'I' ? Z3_mk_int_sort(ctx) : Z3_mk_real_sort(ctx));
  }
  return vars[v].ast;
}
static bool allInt(const Poly& p) {
  for (auto& t : p) { if (t.second.get_den() != 1) return false; for (auto& x : t.first) if (vars[x.first].kind != 'I') return false; }
  return true;
}
static Z3_ast zpoly(const Poly& p, bool isInt) {
  if (p.empty()) return numeral(0, isInt);
  std::vector<Z3_ast> sum;
  for (auto& t : p) {
    std::vector<Z3_ast> m;
    if (t.second != 1 || t.first.empty()) m.push_back(numeral(t.second, isInt));
    for (auto& x : t.first) for (uint32_t k = 0; k < x.second; ++k) {
      Z3_ast v = zvar(x.first);
      if (!isInt && vars[x.first].kind == 'I') v = Z3_mk_int2real(ctx, v);
      m.push_back(v);
    }
    sum.push_back(m.size() == 1 ? m[0] : Z3_mk_mul(ctx, m.size(), m.data()));
  }
  return sum.size() == 1 ? sum[0] : Z3_mk_add(ctx, sum.size(), sum.data());
}
enum { NEGB = 1, ZEROB = 2, POSB = 4 };
struct Con { Poly p; int mask; std::set<uint32_t> vs; Z3_ast ast; };
static Z3_ast zmask(const Poly& p0, int mask) {
  // multiply by the common denominator of the coefficients
  mpz_class l = 1; for (auto& t : p0) l = lcm(l, mpz_class(t.second.get_den()));
  Poly p = l == 1 ? p0 : pscale(p0, Q(l));
  bool in = allInt(p);
  Z3_ast e = zpoly(p, in), z = numeral(0, in);
  switch (mask) {
    case 1: return Z3_mk_lt(ctx, e, z);
    case 2: return Z3_mk_eq(ctx, e, z);
    case 3: return Z3_mk_le(ctx, e, z);
    case 4: return Z3_mk_gt(ctx, e, z);
    case 5: return Z3_mk_not(ctx, Z3_mk_eq(ctx, e, z));
    case 6: return Z3_mk_ge(ctx, e, z);
    case 7: return Z3_mk_true(ctx);
    default: return Z3_mk_false(ctx);
  }
}
static std::vector<Con> path;
static std::map<std::string, int> facts;  // canonical poly -> allowed signs
static std::string pkey(const Poly& p) {
  std::string s;
  for (auto& t : p) { for (auto& x : t.first) { s.append((const char*)&x.first, 4); s.append((const char*)&x.second, 4); } s += '|'; s += t.second.get_str(62); s += ';'; }
  return s;
}
static Poly defPoly(uint32_t r) {  // r^2*den - num
  Frac& X = vars[r].def; Poly d = pconst(1);
  for (auto& f : X.den) for (int k = 0; k < f.second; ++k) d = pmul(d, factor(f.first));
  Poly r2; r2[Mono{{r, 2}}] = 1;
  return padd(pmul(d, r2), X.num, -1);
}
static std::set<uint32_t> slice(const std::set<uint32_t>& seed, std::vector<int>& cs, bool all) {
  std::set<uint32_t> s = seed;
  std::vector<char> used(path.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < path.size(); ++i) if (!used[i]) {
      bool hit = all;
      for (uint32_t v : path[i].vs) if (s.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; cs.push_back(i); for (uint32_t v : path[i].vs) if (s.insert(v).second) ch = true; ch = true; }
    }
    for (uint32_t v = 0; v < vars.size(); ++v) {
      Var& x = vars[v];
      if (x.deps.empty()) continue;
      if (s.count(v)) { for (uint32_t d : x.deps) if (s.insert(d).second) ch = true; }
      else if (x.uses) { for (uint32_t d : x.deps) if (s.count(d)) { s.insert(v); ch = true; break; } }
    }
  }
  return s;
}
static void onAlarm(int) { if (ctx) Z3_interrupt(ctx); }
struct Extra { Poly p; int mask; };
static bool propagateUses(uint32_t v) {  // a used derived var makes its deps' chain "used"
  for (uint32_t d : vars[v].deps) if (!vars[d].deps.empty() && !vars[d].uses) { vars[d].uses = 1; propagateUses(d); }
  return true;
}
// satisfiability of path + extras; on sat the model is returned in out
static int query(const std::vector<Extra>& ex, std::vector<Val>& out, bool all = false, double mult = 1) {
  std::set<uint32_t> seed;
  for (auto& e : ex) pvars(e.p, seed);
  std::vector<int> cs;
  std::set<uint32_t> vs = slice(seed, cs, all);
  bool lin = true, anyInt = false;
  for (auto& e : ex) lin = lin && plinear(e.p);
  for (int i : cs) lin = lin && plinear(path[i].p);
  for (uint32_t v : vs) { if (vars[v].kind == 'D') lin = false; if (vars[v].kind == 'I') anyInt = true; }
  double t0 = now();
  S->queries.fetch_add(1);
  z3err = false;
  Z3_solver s;
  if (lin) s = Z3_mk_simple_solver(ctx);
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, anyInt ? "QF_NIRA" : "QF_NRA"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params prm = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, prm);
  double rl = (double)g_rlimit * mult; if (rl > 4e9) rl = 4e9;
  Z3_params_set_uint(ctx, prm, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)rl);
  Z3_solver_set_params(ctx, s, prm);
  for (int i : cs) { if (!path[i].ast) path[i].ast = zmask(path[i].p, path[i].mask); Z3_solver_assert(ctx, s, path[i].ast); }
  for (auto& e : ex) Z3_solver_assert(ctx, s, zmask(e.p, e.mask));
  for (uint32_t v : vs) {
    Var& x = vars[v]; bool in = x.kind == 'I';
    if (x.hasLo) Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, zvar(v), numeral(x.lo, in)));
    if (x.hasHi) Z3_solver_assert(ctx, s, Z3_mk_le(ctx, zvar(v), numeral(x.hi, in)));
    if (x.kind == 'D') {
      Poly dp = defPoly(v);
      Z3_solver_assert(ctx, s, zmask(dp, ZEROB));
      std::set<uint32_t> dv; pvars(dp, dv);
      for (uint32_t d : dv) vs.insert(d);
    }
  }
  struct itimerval it; memset(&it, 0, sizeof it);
  double tl = (g_thorough ? 20 : 6) * mult; if (tl > 120) tl = 120;
  it.it_value.tv_sec = (long)tl; it.it_value.tv_usec = (long)((tl - (long)tl) * 1e6);
  setitimer(ITIMER_REAL, &it, 0);
  Z3_lbool r = Z3_solver_check(ctx, s);
  memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
  if (z3err && res != 0) res = 2;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    if (!m) res = 2;
    else {
      Z3_model_inc_ref(ctx, m);
      out = model;
      for (uint32_t v : vs) {
        Z3_ast val = nullptr;
        if (!Z3_model_eval(ctx, m, zvar(v), true, &val) || !val) { res = 2; break; }
        Val x;
        if (Z3_is_algebraic_number(ctx, val)) {
          Z3_ast lo = Z3_get_algebraic_number_lower(ctx, val, 60);
          Q q(std::string(Z3_get_numeral_string(ctx, lo))); q.canonicalize();
          x.exact = false; x.f = F(q, PREC);
        } else if (Z3_is_numeral_ast(ctx, val)) {
          Q q(std::string(Z3_get_numeral_string(ctx, val))); q.canonicalize(); x.q = q;
        } else { res = 2; break; }
        out[v] = x;
      }
      Z3_model_dec_ref(ctx, m);
      if (res == 1) {
        std::vector<Val> keep = model; model = out;
        for (uint32_t v = 0; v < vars.size(); ++v) if (!vars[v].deps.empty() && !vs.count(v)) recompute(v);
        out = model; model = keep;
      }
    }
  }
  Z3_params_dec_ref(ctx, prm);
  Z3_solver_dec_ref(ctx, s);
  (res == 1 ? S->qsat : res == 0 ? S->qunsat : S->qunknown).fetch_add(1);
  double dt = now() - t0;
  S->solverUs.fetch_add((long)(1e6 * dt));
  if (g_trace || getenv("SYM_SLOWQ")) if (g_trace || dt > 0.5) { fprintf(stderr, "[q %s %.3fs %s cs=%zu", g_scn, dt, res == 1 ? "sat" : res == 0 ? "unsat" : "UNKNOWN", cs.size()); for (auto& e : ex) fprintf(stderr, " {%s : %d}", pstr(e.p, 8).c_str(), e.mask); fprintf(stderr, "]\n"); }
  return res;
}
static void addCon(const Poly& p, int mask) {
  Con c; c.p = p; c.mask = mask; c.ast = nullptr; pvars(p, c.vs);
  for (uint32_t v : c.vs) { vars[v].uses++; propagateUses(v); }
  path.push_back(c);
}

// ------------------------------------------------------------------ forking
static bool takeToken() {
  if (!g_par) return false;
  int t = S->tokens.load();
  while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) return true;
  return false;
}
static void deadline() {
  if (now() > g_deadline) { S->truncated.fetch_add(1); endPath(nullptr); }
}
// returns true in the child
static bool forkPath() {
  deadline();
  S->forks.fetch_add(1);
  fflush(stdout); fflush(stderr);
  bool tok = takeToken();
  pid_t p = fork();
  if (p < 0) { if (tok) S->tokens.fetch_add(1); S->truncated.fetch_add(1); return false; }
  if (p == 0) { g_children = 0; g_holdsToken = tok; return true; }
  if (tok) ++g_children;
  else { int st; waitpid(p, &st, 0); }
  // (a child that did not take a token runs on the parent's)
  return false;
}

static int flipMask(int m) { return (m & ZEROB) | ((m & NEGB) ? POSB : 0) | ((m & POSB) ? NEGB : 0); }
static void canon(Poly& p, int& mask) {
  Q lc = p.rbegin()->second;
  if (lc < 0) mask = flipMask(mask);
  if (lc != 1) p = pscale(p, 1 / lc);
}
static double piD(const Poly& p) {  // constant + pi multiples
  double r = 0;
  for (auto& t : p) r += t.second.get_d() * (t.first.empty() ? 1 : M_PI);
  return r;
}
// comparisons of an angle with a constant are turned into comparisons of its cosine / sine
static bool angleAtom(Poly& p, int& mask) {
  uint32_t th = 0; Q co; Poly rest;
  if (p.size() == 1) {  // theta^e with theta in [0, pi]: same sign as 1 - cos
    auto& t = *p.begin();
    if (t.first.size() == 1 && t.first[0].second > 1) {
      auto it = angles.find(t.first[0].first);
      if (it != angles.end() && it->second.acosLike) {
        if (t.second < 0) mask = flipMask(mask);
        Frac d0, d1; splitEps(fadd(fconst(1), it->second.c, -1), d0, d1);
        p = reducedProduct(d0.num, d0.den, true);
        return true;
      }
    }
  }
  for (auto& t : p) {
    if (t.first.empty() || (t.first.size() == 1 && t.first[0].first == g_pi && t.first[0].second == 1)) { rest[t.first] = t.second; continue; }
    if (t.first.size() == 1 && t.first[0].second == 1 && angles.count(t.first[0].first) && !th) { th = t.first[0].first; co = t.second; continue; }
    return false;
  }
  if (!th) return false;
  AngleInfo& a = angles[th];
  if (co < 0) mask = flipMask(mask);
  Poly c = pscale(rest, -1 / co);  // theta REL c
  bool isPi = c.size() == 1 && !c.begin()->first.empty() && c.begin()->second == 1;
  double cd = piD(c);
  Frac d;
  if (a.acosLike) {
    if (c.empty()) { d = fadd(fconst(1), a.c, -1); }            // theta - 0 ~ 1 - cos
    else if (isPi) { d = fadd(fconst(-1), a.c, -1); }           // theta - pi ~ -1 - cos
    else if (cd < 0) { p = pconst(1); return true; }
    else if (cd > M_PI) { p = pconst(-1); return true; }
    else d = fadd(fconst(Q(cos(cd))), a.c, -1);
  } else {
    if (c.empty()) d = a.s;                                       // in (-pi,pi)
    else return false;
  }
  Frac d0, d1; splitEps(d, d0, d1);
  p = reducedProduct(d0.num, d0.den, true);
  return true;
}
static void traceAtom(const Poly& p, int mask, bool v) { if (g_trace) fprintf(stderr, "[%d] %s mask %d -> %d\n", getpid(), pstr(p, 12).c_str(), mask, v); }

static bool decide(Poly p, int mask) {
  if (mask == 7) return true;
  if (mask == 0) return false;
  if (!isConst(p)) angleAtom(p, mask);
  if (isConst(p)) { int s = sgn(constTerm(p)); return mask & (s < 0 ? NEGB : s == 0 ? ZEROB : POSB); }
  canon(p, mask);
  std::string key = pkey(p);
  int& allowed0 = facts.emplace(key, 7).first->second;
  int allowed = allowed0;
  if (!(allowed & ~mask)) return true;
  if (!(allowed & mask)) return false;
  deadline();
  int yes = allowed & mask, no = allowed & ~mask;
  int s = modelValid ? signM(p) : 2;
  std::vector<Val> m;
  if (s == 2) {
    // sign unknown under the current model: ask about both sides
    std::vector<Val> my, mn;
    int ry = query({{p, yes}}, my, !modelValid), rn = query({{p, no}}, mn, !modelValid);
    if (ry == 0 && rn == 0) endPath(&S->infeasible);
    if (ry == 0 || rn == 0) {
      bool v = rn == 0; int ok = v ? yes : no;
      facts[key] = ok; addCon(p, ok);
      if ((v ? ry : rn) == 1) { model = v ? my : mn; modelValid = true; }
      traceAtom(p, mask, v);
      return v;
    }
    bool child = forkPath();
    int ok = child ? no : yes; int r = child ? rn : ry;
    if (r == 1) { model = child ? mn : my; modelValid = true; } else modelValid = false;
    facts[key] = ok; addCon(p, ok);
    traceAtom(p, mask, !child);
    return !child;
  }
  int sb = s < 0 ? NEGB : s == 0 ? ZEROB : POSB;
  bool cur = sb & mask;
  int here = cur ? yes : no, other = cur ? no : yes;
  int r = query({{p, other}}, m);
  if (r == 0) { facts[key] = here; traceAtom(p, mask, cur); return cur; }
  bool child = forkPath();
  if (child) {
    facts[key] = other; addCon(p, other);
    if (r == 1) model = m; else modelValid = false;
    rng.seed(getpid());
    traceAtom(p, mask, !cur);
    return !cur;
  }
  facts[key] = here; addCon(p, here);
  traceAtom(p, mask, cur);
  return cur;
}
// add p in mask without splitting; ends the path when impossible
static void require(Poly p, int mask) {
  if (!isConst(p)) angleAtom(p, mask);
  if (isConst(p)) { int s = sgn(constTerm(p)); if (!(mask & (s < 0 ? NEGB : s == 0 ? ZEROB : POSB))) endPath(&S->assumedOut); return; }
  canon(p, mask);
  std::string key = pkey(p);
  int& al = facts.emplace(key, 7).first->second;
  if (!(al & ~mask)) return;
  if (!(al & mask)) endPath(&S->assumedOut);
  int s = modelValid ? signM(p) : 2;
  int ok = al & mask;
  if (s == 2 || !((s < 0 ? NEGB : s == 0 ? ZEROB : POSB) & mask)) {
    std::vector<Val> m;
    int r = query({{p, ok}}, m, !modelValid);
    if (r == 0) endPath(&S->assumedOut);
    if (r == 1) { model = m; modelValid = true; } else modelValid = false;
  }
  facts[key] = ok; addCon(p, ok);
}
static Poly signPoly(const Frac& f) { Frac a, b; splitEps(f, a, b); return reducedProduct(a.num, a.den, true); }

// ------------------------------------------------------------------ reporting
static void unsupported(const char* what) {
  int k = S->nLeakMsg.fetch_add(1);
  if (k < 20) snprintf(S->leakMsg[k], 600, "%s: %s", g_scn, what);
  endPath(&S->unsupported);
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) r += (c == '\n' || c == '\r') ? ' ' : c; return r; }
static void writeCex(const std::string& lab, const std::string& kind, const std::string& detail) {
  LabelRec& L = label(lab);
  long n = L.violated.fetch_add(1);
  if (n >= 6) return;
  long k = S->cex.fetch_add(1);
  std::string fn = g_out + "/cex-" + std::to_string(k) + ".txt";
  std::ofstream o(fn + ".tmp");
  o.precision(17);
  o << "scenario " << g_scn << "\nlabel " << lab << "\nkind " << kind << "\ndetail " << esc(detail) << "\nmodel " << (modelValid ? "exact" : "unverified") << "\n";
  for (auto& s : g_notes) o << "note " << esc(s) << "\n";
  for (auto& c : choices) o << "C " << c.first << " " << c.second << "\n";
  for (uint32_t v = 0; v < vars.size(); ++v) if (vars[v].harness) {
    if (vars[v].uf.empty()) o << (vars[v].kind == 'I' ? "I " : "R ") << vars[v].name << " " << toD(model[v]) << "\n";
    else { o << "U " << vars[v].uf << " " << toD(model[v]) << " " << vars[v].ufArgs.size(); for (uint32_t a : vars[v].ufArgs) o << " " << evalNode(a); o << "\n"; }
  }
  o.close();
  rename((fn + ".tmp").c_str(), fn.c_str());
  if (g_trace || getenv("SYM_VERBOSE")) fprintf(stderr, "[violation %s/%s %s] %s\n", g_scn, lab.c_str(), kind.c_str(), detail.c_str());
}
// make the model of an infeasible-or-unknown path exact, or drop the path
static bool confirmPath() {
  if (modelValid) return true;
  std::vector<Val> m;
  int r = query({}, m, true, 5);
  if (r == 0) endPath(&S->infeasible);
  if (r == 1) { model = m; modelValid = true; }
  return modelValid;
}
static void niceModel(const std::vector<Extra>& base) {
  // look for a model with small values: easier to reproduce in floating point
  std::vector<Extra> ex = base;
  for (uint32_t v = 0; v < vars.size(); ++v) if (vars[v].kind == 'R') {
    ex.push_back({padd(pvar(v), pconst(8), 1), 6}); ex.push_back({padd(pvar(v), pconst(8), -1), 3});
  }
  std::vector<Val> m;
  if (query(ex, m, true, .5) == 1) { model = m; modelValid = true; }
}

// ------------------------------------------------------------------ ops
static double slowBin(char o, double a, double b) {
  TrapOff t;
  switch (o) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return a / b; }
}
static bool relSym(unsigned pred, double a, double b);
static inline double bin(char o, double a, double b) {
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) {
    if (isFin(a) && isFin(b) && !(o == '/' && b == 0)) { switch (o) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return a / b; } }
    return slowBin(o, a, b);
  }
  // one side is not a finite number
  if (!sa && !isFin(a)) {
    if (isNan(a)) return a;
    if (o == '+' || o == '-') return a;
    if (o == '*' || o == '/') { bool pos = relSym(2, b, 0); if (pos) return a; if (relSym(4, b, 0)) return -a; return o == '*' ? NAN : a; }
  }
  if (!sb && !isFin(b)) {
    if (isNan(b)) return b;
    if (o == '+') return b;
    if (o == '-') return -b;
    if (o == '/') return 0;
    if (relSym(2, a, 0)) return b; if (relSym(4, a, 0)) return -b; return NAN;
  }
  switch (o) {
    case '+': if (!sa && a == 0) return b; if (!sb && b == 0) return a; return mk(pushNode(ADD, nid(a), nid(b)));
    case '-': if (!sb && b == 0) return a; if (sa && sb && idOf(a) == idOf(b)) return 0; if (!sa && a == 0) return mk(pushNode(NEG, idOf(b), 0)); return mk(pushNode(SUB, nid(a), nid(b)));
    case '*':
      if (!sa) { if (a == 0) return 0; if (a == 1) return b; if (a == -1) return mk(pushNode(NEG, idOf(b), 0)); }
      if (!sb) { if (b == 0) return 0; if (b == 1) return a; if (b == -1) return mk(pushNode(NEG, idOf(a), 0)); }
      return mk(pushNode(MUL, nid(a), nid(b)));
    default:
      if (!sb) { if (b == 1) return a; if (b == 0) { if (relSym(2, a, 0)) return INFINITY; if (relSym(4, a, 0)) return -INFINITY; return NAN; } }
      if (sb && relSym(1, b, 0)) {
        if (!sa) { if (a == 0) return NAN; return a > 0 ? INFINITY : -INFINITY; }
        if (relSym(2, a, 0)) return INFINITY; if (relSym(4, a, 0)) return -INFINITY; return NAN;
      }
      return mk(pushNode(DIV, nid(a), nid(b)));
  }
}
#define GUARD(...) try { TrapOff _t; __VA_ARGS__; } catch (const TooBig&) { S->tooBig.fetch_add(1); unsupported("expression too large"); } catch (const std::runtime_error& e) { unsupported(e.what()); }
// pred: fcmp numbering low 3 bits: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one
static bool relSym(unsigned pred, double a, double b) {
  static const int mk_[8] = {0, ZEROB, POSB, POSB | ZEROB, NEGB, NEGB | ZEROB, NEGB | POSB, 7};
  int mask = mk_[pred & 7];
  uint32_t d = isSym(a) && !isSym(b) && b == 0 ? idOf(a) : pushNode(SUB, nid(a), nid(b));
  bool r = false;
  GUARD(r = decide(signPoly(nf(d)), mask));
  return r;
}
static int absId(double);
extern "C" {
double __sym_fadd(double a, double b) { return bin('+', a, b); }
double __sym_fsub(double a, double b) { return bin('-', a, b); }
double __sym_fmul(double a, double b) { return bin('*', a, b); }
double __sym_fdiv(double a, double b) { return bin('/', a, b); }
double __sym_fneg(double a) { return isSym(a) ? mk(pushNode(NEG, idOf(a), 0)) : -a; }
double __sym_fma(double a, double b, double c) { return bin('+', bin('*', a, b), c); }
static int fcmpReal(int pred, double a, double b) {
  bool sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) {
    if (isNan(a) || isNan(b)) return pred >= 8 && pred != 0;
    switch (pred & 7) { case 0: return pred == 8 ? 0 : 0; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; case 6: return a != b; default: return pred == 7; }
  }
  if ((!sa && isNan(a)) || (!sb && isNan(b))) return pred >= 8;
  int p = pred & 7;
  if (pred == 7) return 1;
  if (pred == 15) return 1;
  if (p == 0) return 0;  // uno
  double inf = 0; bool left = false;
  if (!sa && isInf(a)) { inf = a; left = true; } else if (!sb && isInf(b)) inf = b;
  if (inf != 0) {  // finite vs infinite
    int s = (inf > 0) == left ? 1 : -1;  // sign of a-b
    static const int mk_[8] = {0, ZEROB, POSB, POSB | ZEROB, NEGB, NEGB | ZEROB, NEGB | POSB, 7};
    return (mk_[p] & (s > 0 ? POSB : NEGB)) != 0;
  }
  return relSym(p, a, b);
}
// equality of numbers with an infinitesimal part: equal real parts are not enough
int __sym_fcmp(int pred, double a, double b) {
  int r = fcmpReal(pred, a, b);
  int p = pred & 7;
  if ((p == 1 && r) || (p == 6 && !r)) {
    if (!isSym(a) && !isSym(b)) return r;
    bool differ = false;
    GUARD({ Frac f0, f1; splitEps(nf(pushNode(SUB, nid(a), nid(b))), f0, f1); differ = !f1.num.empty(); })
    if (differ) return !r;
  }
  return r;
}
double __sym_needconc(double a) {
  if (!isSym(a)) return a;
  Q q; bool c = false;
  GUARD(c = isConstF(nf(idOf(a)), q));
  if (c) return q.get_d();
  unsupported("operation needs a concrete number");
  return 0;
}
int __sym_fpclass(double a, int mask) {
  if (!isSym(a)) {
    int k;
    if (isNan(a)) k = 0x3;
    else if (isInf(a)) k = a < 0 ? 0x4 : 0x200;
    else if (a == 0) k = std::signbit(a) ? 0x20 : 0x40;
    else k = a < 0 ? 0x8 : 0x100;
    return (k & mask) != 0;
  }
  int z = mask & 0x60, n = mask & 0x18, p = mask & 0x180;
  if (z && n && p) return 1;
  if (!z && !n && !p) return 0;
  return relSym(1, a, 0) ? z != 0 : relSym(2, a, 0) ? p != 0 : n != 0;
}
double __sym_fabs(double a) { if (!isSym(a)) return std::fabs(a); return relSym(4, a, 0) ? __sym_fneg(a) : a; }
double __sym_fmin(double a, double b) { if (!isSym(a) && isNan(a)) return b; if (!isSym(b) && isNan(b)) return a; return __sym_fcmp(4, b, a) ? b : a; }
double __sym_fmax(double a, double b) { if (!isSym(a) && isNan(a)) return b; if (!isSym(b) && isNan(b)) return a; return __sym_fcmp(2, b, a) ? b : a; }
double __sym_copysign(double a, double b) {
  if (!isSym(a) && !isSym(b)) return std::copysign(a, b);
  double m = __sym_fabs(a);
  bool neg = isSym(b) ? relSym(4, b, 0) : std::signbit(b);
  return neg ? __sym_fneg(m) : m;
}
}

// square root of a polynomial, if it is a perfect square
static bool polySqrt(const Poly& p, Poly& q) {
  q.clear();
  if (p.empty()) return true;
  auto& lt = *p.rbegin(); Q c;
  if (!isSquareQ(lt.second, c)) return false;
  Mono m;
  for (auto& x : lt.first) { if (x.second % 2) return false; m.push_back({x.first, x.second / 2}); }
  q[m] = c;
  Poly ltq = q; Poly r = padd(p, pmul(q, q), -1);
  MonoLess ml; Mono last = m;
  for (int g = 0; !r.empty() && g < 60; ++g) {
    Poly t, d; d[r.rbegin()->first] = r.rbegin()->second;
    Poly two = pscale(ltq, 2);
    if (!pdivexact(d, two, t)) return false;
    if (!ml(t.rbegin()->first, last)) return false;
    last = t.rbegin()->first;
    q = padd(q, t, 1); r = padd(p, pmul(q, q), -1);
  }
  return r.empty();
}
static std::string fkey(const Frac& f) {
  std::string k = pkey(f.num) + "/";
  for (auto& d : f.den) k += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
  return k;
}
static std::map<std::string, uint32_t> sqrtVars, angleVars;
static std::vector<uint32_t> fdeps(const Frac& f) {
  std::set<uint32_t> s; pvars(f.num, s);
  for (auto& d : f.den) pvars(factor(d.first), s);
  return std::vector<uint32_t>(s.begin(), s.end());
}
// sqrt of an eps-free fraction known to be >= 0
static Frac sqrtFrac(Frac X) {
  Q q;
  if (isConstF(X, q)) { Q s; if (isSquareQ(q, s)) return fconst(s); }
  if (X.num.empty()) return Frac();
  // perfect squares: |p|/|d|
  {
    bool even = true; for (auto& d : X.den) if (d.second % 2) even = false;
    Poly p;
    if (even && polySqrt(X.num, p)) {
      Frac r; r.num = p; for (auto& d : X.den) r.den[d.first] = d.second / 2;
      Poly sp = reducedProduct(r.num, r.den, true);
      if (decide(sp, NEGB)) r.num = pscale(r.num, -1);
      return r;
    }
  }
  // pull square content and even denominators out
  Frac out = fconst(1);
  Q lc = X.num.rbegin()->second, al = abs(lc), s;
  {
    // largest simple scaling: make |lc| square-free-ish only if it is a perfect square, else scale to integer numerator
    if (isSquareQ(al, s)) { X.num = pscale(X.num, 1 / al); out = fmul(out, fconst(s)); }
    else { Q sc(al.get_den()); Q sc2 = sc * sc; X.num = pscale(X.num, sc2); out = fmul(out, fconst(1 / sc)); }
  }
  for (auto it = X.den.begin(); it != X.den.end();) {
    int h = it->second / 2;
    if (h) {
      Frac g; g.num = factor(it->first);
      if (h % 2 && decide(g.num, NEGB)) g.num = pscale(g.num, -1);
      Frac gi = fdiv(fconst(1), g);
      for (int k = 0; k < h; ++k) out = fmul(out, gi);
      it->second -= 2 * h;
    }
    if (it->second == 0) it = X.den.erase(it); else ++it;
  }
  // known square roots that divide the radicand: sqrt(P q) = sqrt(P) sqrt(q)
  if (X.num.size() > 2 && X.num.size() <= 60) {
    std::set<uint32_t> vs; pvars(X.num, vs);
    for (auto& kv : sqrtVars) {
      const Frac& P = relation(kv.second);
      if (!P.den.empty() || P.num.size() < 2 || P.num.size() >= X.num.size()) continue;
      std::set<uint32_t> ps; pvars(P.num, ps);
      bool sub = true; for (uint32_t x : ps) if (!vs.count(x)) sub = false;
      Frac Y; Y.den = X.den;
      if (!sub || !pdivexact(X.num, P.num, Y.num)) continue;
      if (decide(P.num, ZEROB)) return Frac();
      return fmul(fmul(out, fvar(kv.second)), sqrtFrac(Y));
    }
  }
  std::string k = fkey(X);
  auto it = sqrtVars.find(k);
  uint32_t v;
  if (it != sqrtVars.end()) v = it->second;
  else {
    v = newVar("sqrt(" + pstr(X.num, 4) + (X.den.empty() ? "" : "/..") + ")", 'D');
    vars[v].def = X; vars[v].deps = fdeps(X);
    vars[v].hasLo = true; vars[v].lo = 0;
    if (vars[v].deps.empty()) { vars[v].deps.push_back(g_pi); }
    sqrtVars[k] = v; setRelation(v, X); recompute(v);
  }
  return fmul(fvar(v), out);
}
static double sqrtSym(double a) {
  Frac X0, X1; splitEps(nf(idOf(a)), X0, X1);
  Q q;
  if (decide(signPoly(X0), NEGB)) return NAN;
  Frac r = sqrtFrac(X0);
  if (!X1.num.empty()) {
    if (decide(signPoly(r), ZEROB)) unsupported("derivative of sqrt at 0");
    Frac d = fdiv(X1, fmul(r, fconst(2)));
    r = fadd(r, fmul(fvar(EPS), d), 1);
  }
  return fromFrac(r);
}
static uint32_t newAngle(const Frac& c, const Frac& s, bool acosLike, const std::string& name) {
  uint32_t v = newVar(name, 'T');
  std::set<uint32_t> d; for (uint32_t x : fdeps(c)) d.insert(x); for (uint32_t x : fdeps(s)) d.insert(x);
  vars[v].deps.assign(d.begin(), d.end());
  vars[v].hasLo = vars[v].hasHi = true;
  vars[v].lo = acosLike ? Q(0) : Q(-31415926536L, 10000000000L); vars[v].hi = Q(31415926536L, 10000000000L);
  angles[v] = AngleInfo{c, s, acosLike, true};
  recompute(v);
  return v;
}
static void sincosFrac(const Frac& X, Frac& c, Frac& s);
static void sincosAtom(uint32_t v, Frac& c, Frac& s) {
  if (v == g_pi) { c = fconst(-1); s = Frac(); return; }
  auto it = angles.find(v);
  if (it == angles.end()) {
    uint32_t cv = newVar("cos(" + vname(v) + ")", 'R');
    vars[cv].hasLo = vars[cv].hasHi = true; vars[cv].lo = -1; vars[cv].hi = 1;
    double cd = cos(toD(model[v])); model[cv].q = Q(cd);
    // sin: algebraic variable with free sign
    Frac X = fadd(fconst(1), fmul(fvar(cv), fvar(cv)), -1);
    Frac r = sqrtFrac(X);
    bool neg = (sym::choose("sinsign", 2) == 1);
    if (neg) r.num = pscale(r.num, -1);
    angles[v] = AngleInfo{fvar(cv), r, false, false};
    it = angles.find(v);
  }
  c = it->second.c; s = it->second.s;
}
static void sincosFrac(const Frac& X, Frac& c, Frac& s) {
  c = fconst(1); s = Frac();
  if (!X.den.empty()) throw std::runtime_error("trigonometric function of a fraction");
  for (auto& t : X.num) {
    Frac tc, ts; Q k = t.second; bool neg = false;
    if (t.first.empty()) { double d = k.get_d(); tc = fconst(Q(cos(d))); ts = fconst(Q(sin(d))); }
    else if (t.first.size() == 1 && t.first[0].second == 1) {
      uint32_t v = t.first[0].first;
      if (k < 0) { neg = true; k = -k; }
      if (v == g_pi && k.get_den() == 2) { long n = k.get_num().get_si() % 4; tc = Frac(); ts = fconst(n == 1 ? 1 : -1); }
      else if (k.get_den() != 1 || k.get_num() > 4) throw std::runtime_error("trigonometric function of a fraction of an angle");
      else {
        Frac bc, bs; sincosAtom(v, bc, bs);
        tc = fconst(1); ts = Frac();
        for (long n = k.get_num().get_si(); n > 0; --n) { Frac a = fadd(fmul(tc, bc), fmul(ts, bs), -1), b = fadd(fmul(ts, bc), fmul(tc, bs), 1); tc = a; ts = b; }
      }
      if (neg) ts.num = pscale(ts.num, -1);
    } else throw std::runtime_error("trigonometric function of a nonlinear expression");
    Frac a = fadd(fmul(c, tc), fmul(s, ts), -1), b = fadd(fmul(s, tc), fmul(c, ts), 1); c = a; s = b;
  }
}
static double trig(double a, int which) {
  if (!isSym(a)) return which == 0 ? std::sin(a) : which == 1 ? std::cos(a) : std::tan(a);
  double res = 0;
  GUARD({
    Frac X0, X1, c, s; splitEps(nf(idOf(a)), X0, X1);
    sincosFrac(X0, c, s);
    Frac r;
    if (which == 0) { r = s; if (!X1.num.empty()) r = fadd(r, fmul(fvar(EPS), fmul(c, X1)), 1); }
    else if (which == 1) { r = c; if (!X1.num.empty()) r = fadd(r, fmul(fvar(EPS), fmul(s, X1)), -1); }
    else { if (decide(signPoly(c), ZEROB)) throw std::runtime_error("tan at pi/2"); r = fdiv(s, c); if (!X1.num.empty()) r = fadd(r, fmul(fvar(EPS), fdiv(X1, fmul(c, c))), 1); }
    res = fromFrac(r);
  })
  return res;
}
static bool fracEq(const Frac& a, const Frac& b) { Frac d = fadd(a, b, -1); return d.num.empty(); }
static Frac negF(Frac f) { f.num = pscale(f.num, -1); return f; }
// the angle in (-pi,pi] with given cosine and sine (c^2+s^2=1)
static Frac angleOf(const Frac& c, const Frac& s, bool acosLike) {
  Q cq, sq;
  if (isConstF(s, sq) && sq == 0 && isConstF(c, cq)) { if (cq == 1) return Frac(); if (cq == -1) return fvar(g_pi); }
  if (isConstF(c, cq) && cq == 0 && isConstF(s, sq)) { Frac p = fvar(g_pi); p.num = pscale(p.num, sq > 0 ? Q(1, 2) : Q(-1, 2)); return p; }
  for (auto& a : angles) {
    if (!a.second.halfOpen) continue;
    if (fracEq(a.second.c, c)) {
      if (fracEq(a.second.s, s)) return fvar(a.first);
      if (fracEq(a.second.s, negF(s))) return negF(fvar(a.first));
      // sine equal up to sign by c^2+s^2=1: decide it
      if (decide(signPoly(fadd(a.second.s, s, -1)), ZEROB)) return fvar(a.first);
      return negF(fvar(a.first));
    }
    if (fracEq(a.second.c, negF(c)) && a.second.acosLike && acosLike) return fadd(fvar(g_pi), fvar(a.first), -1);
  }
  return fvar(newAngle(c, s, acosLike, acosLike ? "acos" : "atan2"));
}
static double acosSym(double x) {
  Frac X0, X1; splitEps(nf(idOf(x)), X0, X1);
  if (decide(signPoly(fadd(X0, fconst(1), -1)), POSB)) return NAN;
  if (decide(signPoly(fadd(X0, fconst(1), 1)), NEGB)) return NAN;
  Frac s = sqrtFrac(fadd(fconst(1), fmul(X0, X0), -1));
  Frac r = angleOf(X0, s, true);
  if (!X1.num.empty()) {
    if (decide(signPoly(s), ZEROB)) throw std::runtime_error("derivative of acos at +-1");
    r = fadd(r, fmul(fvar(EPS), fdiv(X1, s)), -1);
  }
  return fromFrac(r);
}
static double atan2Sym(double y, double x) {
  Frac Y0, Y1, X0, X1; splitEps(nf(nid(y)), Y0, Y1); splitEps(nf(nid(x)), X0, X1);
  Frac n2 = fadd(fmul(X0, X0), fmul(Y0, Y0), 1);
  if (decide(signPoly(n2), ZEROB)) return 0;
  Frac r = sqrtFrac(n2);
  Frac c = fdiv(X0, r), s = fdiv(Y0, r);
  Frac th = angleOf(c, s, false);
  if (!X1.num.empty() || !Y1.num.empty()) {
    Frac d = fdiv(fadd(fmul(X0, Y1), fmul(Y0, X1), -1), n2);
    th = fadd(th, fmul(fvar(EPS), d), 1);
  }
  return fromFrac(th);
}
extern "C" {
double __sym_sqrt(double a) {
  if (!isSym(a)) { if (a < 0) return NAN; return std::sqrt(a); }
  double r = 0; GUARD(r = sqrtSym(a)); return r;
}
double __sym_sin(double a) { return trig(a, 0); }
double __sym_cos(double a) { return trig(a, 1); }
double __sym_tan(double a) { return trig(a, 2); }
double __sym_acos(double a) { if (!isSym(a)) { if (a > 1 || a < -1) return NAN; return std::acos(a); } double r = 0; GUARD(r = acosSym(a)); return r; }
double __sym_asin(double a) { if (!isSym(a)) { if (a > 1 || a < -1) return NAN; return std::asin(a); } return bin('-', M_PI / 2, __sym_acos(a)); }
double __sym_atan2(double y, double x) { if (!isSym(y) && !isSym(x)) return std::atan2(y, x); double r = 0; GUARD(r = atan2Sym(y, x)); return r; }
double __sym_atan(double a) { if (!isSym(a)) return std::atan(a); return __sym_atan2(a, 1); }
double __sym_exp(double a) { return std::exp(__sym_needconc(a)); }
}
// monotone transcendental functions as uninterpreted values with the facts
// f(x) has the right sign, range, and is the same for provably equal arguments
struct MonoApp { std::string k; uint32_t v; Frac x; };
static std::map<std::string, std::vector<MonoApp>> monos;
static double monoSym(const char* name, double a) {
  double res = 0;
  GUARD({
    Frac X0, X1; splitEps(nf(idOf(a)), X0, X1);
    if (!X1.num.empty()) throw std::runtime_error("derivative of a transcendental function");
    std::string k = fkey(X0);
    bool isTanh = name[0] == 't';
    for (auto& m : monos[name]) if (m.k == k) return mk(varNode(m.v));
    uint32_t v = newVar(std::string(name) + "(.)", 'R');
    if (isTanh) { vars[v].hasLo = vars[v].hasHi = true; vars[v].lo = -1; vars[v].hi = 1; }
    double m = isTanh ? std::tanh(fracD(X0)) : std::log(std::max(1e-12, fracD(X0)));
    model[v].q = Q(m);
    int s = decide(signPoly(isTanh ? X0 : fadd(X0, fconst(1), -1)), POSB) ? POSB : decide(signPoly(isTanh ? X0 : fadd(X0, fconst(1), -1)), ZEROB) ? ZEROB : NEGB;
    require(pvar(v), s);
    if (isTanh) { require(padd(pvar(v), pconst(1), 1), POSB); require(padd(pvar(v), pconst(1), -1), NEGB); }
    monos[name].push_back(MonoApp{k, v, X0});
    res = mk(varNode(v));
  })
  return res;
}
extern "C" {
double __sym_tanh(double a) { if (!isSym(a)) return std::tanh(a); return monoSym("tanh", a); }
double __sym_log(double a) {
  if (!isSym(a)) return std::log(a);
  if (relSym(4, a, 0)) return NAN;
  if (relSym(1, a, 0)) return -INFINITY;
  return monoSym("log", a);
}
double __sym_log10(double a) { return std::log10(__sym_needconc(a)); }
double __sym_floor(double a) { return std::floor(__sym_needconc(a)); }
double __sym_ceil(double a) { return std::ceil(__sym_needconc(a)); }
double __sym_frem(double a, double b) { return std::fmod(__sym_needconc(a), __sym_needconc(b)); }
double __sym_hypot(double a, double b) { return __sym_sqrt(bin('+', bin('*', a, a), bin('*', b, b))); }
double __sym_pow(double a, double b) {
  if (!isSym(a) && !isSym(b)) return std::pow(a, b);
  b = __sym_needconc(b);
  if (b == 0.5) return __sym_sqrt(a);
  if (b == std::floor(b) && b >= 0 && b <= 8) { double r = 1; for (int i = 0; i < (int)b; ++i) r = bin('*', r, a); return r; }
  unsupported("pow"); return 0;
}
}

// ------------------------------------------------------------------ integers
static std::vector<Poly> ipolys;
static std::map<std::string, uint32_t> iids;
static inline bool isSymI(long v) { return ((uint64_t)v >> 32) == ITAG; }
static Poly ipoly(long v) { return isSymI(v) ? ipolys[(uint32_t)v] : pconst(Q(v)); }
static long mkI(const Poly& p) {
  if (isConst(p)) return constTerm(p).get_num().get_si();
  std::string k = pkey(p);
  auto it = iids.find(k);
  uint32_t id;
  if (it != iids.end()) id = it->second; else { id = ipolys.size(); ipolys.push_back(p); iids[k] = id; }
  return (long)(((uint64_t)ITAG << 32) | id);
}
static bool icmpS(int mask, long a, long b) {
  bool r = false;
  GUARD(r = decide(padd(ipoly(a), ipoly(b), -1), mask));
  return r;
}
extern "C" {
long __sym_add(long a, long b) { if (!isSymI(a) && !isSymI(b)) return (long)((uint64_t)a + (uint64_t)b); return mkI(padd(ipoly(a), ipoly(b), 1)); }
long __sym_sub(long a, long b) { if (!isSymI(a) && !isSymI(b)) return (long)((uint64_t)a - (uint64_t)b); return mkI(padd(ipoly(a), ipoly(b), -1)); }
long __sym_mul(long a, long b) { if (!isSymI(a) && !isSymI(b)) return (long)((uint64_t)a * (uint64_t)b); return mkI(pmul(ipoly(a), ipoly(b))); }
int __sym_icmp(int pred, long a, long b) {
  bool s = isSymI(a) || isSymI(b);
  uint64_t ua = a, ub = b;
  if (!s) switch (pred) {
    case 32: return a == b; case 33: return a != b; case 34: return ua > ub; case 35: return ua >= ub; case 36: return ua < ub; case 37: return ua <= ub;
    case 38: return a > b; case 39: return a >= b; case 40: return a < b; default: return a <= b;
  }
  if (pred == 32) return icmpS(ZEROB, a, b);
  if (pred == 33) return icmpS(5, a, b);
  if (pred >= 34 && pred <= 37) {
    bool na = icmpS(NEGB, a, 0), nb = icmpS(NEGB, b, 0);
    if (na != nb) return (pred <= 35) ? na : nb;
    pred += 4;
  }
  switch (pred) { case 38: return icmpS(POSB, a, b); case 39: return icmpS(6, a, b); case 40: return icmpS(NEGB, a, b); default: return icmpS(3, a, b); }
}
long __sym_smax(long a, long b) { return __sym_icmp(40, a, b) ? b : a; }
long __sym_smin(long a, long b) { return __sym_icmp(40, a, b) ? a : b; }
long __sym_umax(long a, long b) { return __sym_icmp(36, a, b) ? b : a; }
long __sym_umin(long a, long b) { return __sym_icmp(36, a, b) ? a : b; }
long __sym_conc(long a) {
  if (!isSymI(a)) return a;
  Poly p = ipoly(a);
  while (true) {
    Q v;
    if (!modelValid) { confirmPath(); if (!modelValid) unsupported("integer enumeration on an undecided path"); }
    v = evalQ(p);
    bool eq = false;
    GUARD(eq = decide(padd(p, pconst(v), -1), ZEROB));
    if (eq) return v.get_num().get_si();
  }
}
double __sym_sitofp(long a) { if (!isSymI(a)) return (double)a; Frac f; f.num = ipoly(a); return mk(nfNode(f)); }
double __sym_uitofp(long a) { if (!isSymI(a)) return (double)(uint64_t)a; return __sym_sitofp(a); }
long __sym_fptosi(double a) { if (!isSym(a)) return (long)a; return (long)__sym_needconc(a); }
long __sym_fptoui(double a) { if (!isSym(a)) return (long)(uint64_t)a; return (long)__sym_needconc(a); }
}

// ------------------------------------------------------------------ harness API
namespace sym {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
bool symbolic() { return true; }
bool thorough() { return g_thorough; }
static std::map<std::string, int> nameCount;
static std::string uniq(const std::string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static Q randQ(double lo, double hi) {
  // generic values: multiples of 1/16 in [lo,hi]
  if (hi - lo < 1e-3) return Q(lo) + (Q(hi) - Q(lo)) / 2;
  long n = (long)std::ceil(lo * 16), m = (long)std::floor(hi * 16);
  if (m <= n) return Q(lo) + (Q(hi) - Q(lo)) / 2;
  long v = n + (long)(rng() % (uint64_t)(m - n + 1));
  Q q(v, 16); q.canonicalize(); return q;
}
static uint32_t realVar(const std::string& name, bool bounded, double lo, double hi) {
  uint32_t v = newVar(uniq(name), 'R');
  vars[v].harness = true;
  if (bounded) { vars[v].hasLo = vars[v].hasHi = true; vars[v].lo = Q(lo); vars[v].hi = Q(hi); }
  model[v].q = randQ(bounded ? std::max(lo, -3.) : -3, bounded ? std::min(hi, std::max(lo, -3.) + 6) : 3);
  return v;
}
double real(const std::string& name) { TrapOff t; return mk(varNode(realVar(name, false, 0, 0))); }
double real(const std::string& name, double lo, double hi) { TrapOff t; return mk(varNode(realVar(name, true, lo, hi))); }
double ratio(long a, long b) { TrapOff t; double r = 0; GUARD({ Q q(a, b); q.canonicalize(); r = fromFrac(fconst(q)); }) return r; }
struct UfApp { std::vector<double> args; uint32_t v; };
static std::map<std::string, std::vector<UfApp>> ufs;
bool zero(double v) {
  if (!isSym(v)) return v == 0;
  bool r = false;
  GUARD(r = nf(idOf(v)).num.empty());
  return r;
}
static double ufAny(const std::string& name, const std::vector<double>& args, bool quick) {
  for (auto& a : ufs[name]) {
    bool eq = a.args.size() == args.size();
    for (size_t i = 0; eq && i < args.size(); ++i) if (bitsOf(a.args[i]) != bitsOf(args[i])) eq = false;
    if (eq) return mk(varNode(a.v));
  }
  for (auto& a : ufs[name]) {
    bool eq = a.args.size() == args.size();
    for (size_t i = 0; eq && i < args.size(); ++i) eq = quick ? zero(bin('-', a.args[i], args[i])) : fcmpReal(1, a.args[i], args[i]);
    if (eq) return mk(varNode(a.v));
  }
  TrapOff t;
  uint32_t v = newVar(uniq(name), 'R');
  vars[v].harness = true; vars[v].uf = name;
  for (double x : args) vars[v].ufArgs.push_back(nid(x));
  model[v].q = randQ(-3, 3);
  ufs[name].push_back(UfApp{args, v});
  return mk(varNode(v));
}
double uf(const std::string& name, const std::vector<double>& args) { return ufAny(name, args, false); }
double ufq(const std::string& name, const std::vector<double>& args) { return ufAny(name, args, true); }
double base(double v) {
  if (!isSym(v)) return v;
  double r = 0;
  GUARD({ Frac a, b; splitEps(nf(idOf(v)), a, b); if (b.num.empty()) return v; r = fromFrac(a); })
  return r;
}
long integer(const std::string& name, long lo, long hi) {
  TrapOff t;
  uint32_t v = newVar(uniq(name), 'I');
  vars[v].harness = true; vars[v].hasLo = vars[v].hasHi = true; vars[v].lo = lo; vars[v].hi = hi;
  model[v].q = Q(lo + (long)(rng() % (uint64_t)(hi - lo + 1)));
  if (lo == hi) { return lo; }
  return mkI(pvar(v));
}
long choose(const std::string& name, long n) {
  long pick = n - 1;
  std::string u = uniq(name);
  TrapOff t;
  for (long i = 0; i < n - 1; ++i) if (forkPath()) { pick = i; rng.seed(getpid()); break; }
  choices.push_back({u, pick});
  return pick;
}
void unit(const std::string& name, double* x, int n) {
  TrapOff t;
  Frac sum;
  std::vector<uint32_t> vs;
  for (int i = 0; i < n - 1; ++i) {
    uint32_t v = realVar(name + std::to_string(i), true, -1, 1);
    model[v].q = Q((long)(rng() % 9) - 4, 8); model[v].q.canonicalize();
    vs.push_back(v); x[i] = mk(varNode(v)); sum = fadd(sum, fmul(fvar(v), fvar(v)), 1);
  }
  Frac X = fadd(fconst(1), sum, -1);
  require(signPoly(X), POSB | ZEROB);
  bool neg = flag(name + ".neg");
  GUARD({
    Frac r = sqrtFrac(X);
    if (neg) r = negF(r);
    x[n - 1] = fromFrac(r);
  })
}
void angle(const std::string& name, double& theta, double lo, double hi) {
  // theta in (-pi,pi) is represented by its cosine and sine (rational parametrisation is not used)
  TrapOff t;
  bool pos = lo >= 0;
  uint32_t cv = newVar(uniq(name + ".cos"), 'R');
  vars[cv].hasLo = vars[cv].hasHi = true;
  double cl = pos ? cos(hi) : (lo <= -M_PI || hi >= M_PI) ? -1 : std::min(cos(lo), cos(hi)), ch = pos ? cos(lo) : 1;
  vars[cv].lo = Q(cl); vars[cv].hi = Q(ch);
  model[cv].q = randQ(cl, ch);
  GUARD({
    Frac r = sqrtFrac(fadd(fconst(1), fmul(fvar(cv), fvar(cv)), -1));
    if (!pos && flag(name + ".neg")) r = negF(r);
    uint32_t v = newAngle(fvar(cv), r, pos, uniq(name));
    vars[v].harness = true;
    vars[v].lo = Q(lo); vars[v].hi = Q(hi);
    theta = mk(varNode(v));
  })
}
void assume(bool c) { if (!c) { TrapOff t; endPath(&S->assumedOut); } }
static void req(double a, double b, int mask) {
  if (!isSym(a) && !isSym(b)) { assume((mask & (a < b ? NEGB : a == b ? ZEROB : POSB)) != 0); return; }
  if ((!isSym(a) && !isFin(a)) || (!isSym(b) && !isFin(b))) { int p = mask == 3 ? 5 : mask == 1 ? 4 : mask == 2 ? 1 : 6; assume(fcmpReal(p, a, b)); return; }
  GUARD(require(signPoly(nf(pushNode(SUB, nid(a), nid(b)))), mask));
}
void assume_le(double a, double b) { req(a, b, 3); }
void assume_lt(double a, double b) { req(a, b, 1); }
void assume_eq(double a, double b) { req(a, b, 2); }
void assume_ne(double a, double b) { req(a, b, 5); }
void stop() { TrapOff t; endPath(&S->stopped); }
void note(const std::string& s) { g_notes.push_back(s); }
void reached(const std::string& l) { TrapOff t; label(l).reached.fetch_add(1); }
double eps() { TrapOff t; return mk(varNode(EPS)); }
double coef_eps(double v) {
  if (!isSym(v)) return 0;
  double r = 0;
  GUARD({ Frac a, b; splitEps(nf(idOf(v)), a, b); r = fromFrac(b); })
  return r;
}
std::vector<double> derivative(const std::function<std::vector<double>(double)>& f) {
  std::vector<double> v = f(eps());
  for (double& x : v) x = coef_eps(x);
  return v;
}
std::string show(double v) {
  TrapOff t;
  if (!isSym(v)) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
  try { const Frac& f = nf(idOf(v)); return pstr(f.num) + (f.den.empty() ? "" : " / ..."); } catch (...) { return "<big>"; }
}
bool same(double a, double b) { return fcmpReal(1, a, b); }
void check(bool c, const std::string& l) {
  TrapOff t;
  LabelRec& L = label(l); L.checked.fetch_add(1);
  if (c) { (path.empty() ? L.byNF : L.bySolver).fetch_add(1); return; }
  if (!confirmPath()) { L.undecided.fetch_add(1); writeCex(l, "bool", "path not confirmed by the solver"); return; }
  if (L.violated.load() < 3) niceModel({});
  writeCex(l, "bool", "condition is false");
}
static void checkRel(double a, double b, const std::string& l, int okMask, bool withEps, double tol) {
  TrapOff t;
  LabelRec& L = label(l); L.checked.fetch_add(1);
  if (!isSym(a) && !isSym(b)) {
    bool nan = isNan(a) || isNan(b);
    double d = nan ? 0 : (isInf(a) && isInf(b) && a == b) ? 0 : a - b, sc = tol * (1 + std::fabs(a));
    bool ok = nan ? (isNan(a) && isNan(b) && okMask == 2) : okMask == 2 ? std::fabs(d) <= sc : d <= sc;
    if (ok) { (path.empty() ? L.byNF : L.bySolver).fetch_add(1); return; }
    if (!confirmPath()) { L.undecided.fetch_add(1); return; }
    if (L.violated.load() < 3) niceModel({});
    char buf[100]; snprintf(buf, 100, "%.9g vs %.9g", a, b);
    writeCex(l, "eq", buf); return;
  }
  if ((!isSym(a) && !isFin(a)) || (!isSym(b) && !isFin(b))) {
    if (okMask != 2 && ((!isSym(a) && isInf(a) && a < 0) || (!isSym(b) && isInf(b) && b > 0))) { L.bySolver.fetch_add(1); return; }
    if (!confirmPath()) { L.undecided.fetch_add(1); return; }
    writeCex(l, "eq", "infinite or NaN value"); return;
  }
  if (L.violated.load() >= 40) return;  // already reported often enough
  uint32_t d = pushNode(SUB, nid(a), nid(b));
  try {
    Frac f0, f1; splitEps(nf(d), f0, f1);
    std::vector<Poly> ps{reducedProduct(f0.num, f0.den, okMask != 2)};
    if (withEps) ps.push_back(reducedProduct(f1.num, f1.den, false));
    for (Poly p : ps) {
      int mask = okMask;
      if (isConst(p)) {
        int s = sgn(constTerm(p));
        double mag = std::fabs(constTerm(p).get_d());
        if (((s < 0 ? NEGB : s == 0 ? ZEROB : POSB) & mask) || mag <= tol) continue;
        if (!confirmPath()) { L.undecided.fetch_add(1); return; }
        writeCex(l, "eq", "difference is the constant " + constTerm(p).get_str()); return;
      }
      // rounding of concrete constants: coefficients below tolerance are noise
      { Q mx = 0; for (auto& x : p) if (abs(x.second) > mx) mx = abs(x.second); if (okMask == 2 && mx < Q(1e-11)) continue; }
      canon(p, mask);
      auto it = facts.find(pkey(p));
      if (it != facts.end() && !(it->second & ~mask)) continue;
      int bad = 7 & ~mask;
      // bounded, clearly non-zero counterexamples first: they replay in floating point
      std::vector<Val> m;
      bool found = false;
      int r = query({{p, bad}}, m, !modelValid, 2);
      if (r == 0) { facts[pkey(p)] = mask; continue; }
      if (r == 1) {
        for (double lim : {1.0, 0.01}) {
          for (int sgnSide : {1, -1}) {
            if (sgnSide == -1 && !(bad & NEGB)) continue;
            if (sgnSide == 1 && !(bad & POSB)) continue;
            std::vector<Extra> ex;
            ex.push_back({padd(p, pconst(Q(lim) * sgnSide), -1), sgnSide > 0 ? POSB : NEGB});
            std::set<uint32_t> vs; pvars(p, vs);
            for (uint32_t v = 0; v < vars.size(); ++v) if (vars[v].kind == 'R' && (vs.count(v) || vars[v].uses)) { ex.push_back({padd(pvar(v), pconst(8), 1), 6}); ex.push_back({padd(pvar(v), pconst(8), -1), 3}); }
            std::vector<Val> m2;
            if (query(ex, m2, true, .5) == 1) { m = m2; found = true; break; }
          }
          if (found) break;
        }
        std::vector<Val> keep = model; bool kv = modelValid;
        model = m; modelValid = true;
        writeCex(l, "eq", pstr(p, 6) + " not in " + std::to_string(okMask));
        model = keep; modelValid = kv;
        return;
      }
      // solver gave up: try the current model and random ones
      if (modelValid) {
        int s = signM(p);
        if (s != 2 && (bad & (s < 0 ? NEGB : s == 0 ? ZEROB : POSB))) { writeCex(l, "eq", pstr(p, 6)); return; }
      }
      L.undecided.fetch_add(1);
      if (getenv("SYM_VERBOSE")) fprintf(stderr, "[undecided %s/%s] %s\n", g_scn, l.c_str(), pstr(p, 10).c_str());
      return;
    }
    bool allZero = true; for (auto& p : ps) if (!p.empty()) allZero = false;
    (allZero ? L.byNF : L.bySolver).fetch_add(1);
  } catch (const TooBig&) {
    S->tooBig.fetch_add(1);
    double x = isSym(a) ? evalNode(idOf(a)) : a, y = isSym(b) ? evalNode(idOf(b)) : b;
    bool bad = okMask == 2 ? std::fabs(x - y) > 1e-6 * (1 + std::fabs(x)) : x - y > 1e-6;
    if (modelValid && bad) writeCex(l, "eq", "numeric, expression too large");
    else L.undecided.fetch_add(1);
  } catch (const std::runtime_error& e) { L.undecided.fetch_add(1); }
}
void check_eq(double a, double b, const std::string& l, double tol) { checkRel(a, b, l, 2, true, tol); }
void check_le(double a, double b, const std::string& l, double tol) { checkRel(a, b, l, 3, false, tol); }
}  // namespace sym

// ------------------------------------------------------------------ crashes
static char g_altstack[1 << 18];
static void btString(std::string& s) {
  void* b[30]; int n = backtrace(b, 30);
  char** sy = backtrace_symbols(b, n);
  for (int i = 2; i < n && s.size() < 500; ++i) {
    if (!sy) break;
    std::string x = sy[i]; size_t p = x.find('('), q = x.find('+', p);
    std::string f = p != std::string::npos && q != std::string::npos ? x.substr(p + 1, q - p - 1) : x;
    int st; char* d = abi::__cxa_demangle(f.c_str(), 0, 0, &st);
    if (d) f = d;
    s += " < " + f.substr(0, 90);
  }
}
static std::string g_crashLabel;
static void crash(const char* kind, const std::string& msg) {
  feholdexcept(new fenv_t);
  std::string l = std::string(kind);
  label(l).checked.fetch_add(1);
  if (!confirmPath()) { label(l).undecided.fetch_add(1); }
  writeCex(l, "crash", msg);
  endPath(&S->stopped);
}
static void onSig(int sig, siginfo_t*, void*) {
  signal(sig, SIG_DFL);
  std::string bt; btString(bt);
  if (sig == SIGFPE) {
    int k = S->nLeakMsg.fetch_add(1);
    if (k < 20) snprintf(S->leakMsg[k], 600, "%s: arithmetic on a symbolic value in uninstrumented code%s", g_scn, bt.c_str());
    endPath(&S->leaks);
  }
  crash(sig == SIGSEGV ? "no-crash-segv" : "no-crash-abort", strsignal(sig) + bt);
}
// printing a symbolic value prints its expression
extern "C" std::ostream& sym_ostream_insert(std::ostream& os, double v) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream& sym_ostream_insert(std::ostream& os, double v) {
  if (isSym(v)) return os << sym::show(v);
  return os << (long double)v;
}
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept(true) {
  const char* b = strrchr(f, '/');
  crash("no-assertion-failure", std::string(e) + " at " + (b ? b + 1 : f) + ":" + std::to_string(l));
  _exit(1);
}
static void runScenario(sym::Scenario& sc) {
  g_scn = sc.name;
  try { sc.fn(); }
  catch (const std::exception& e) { crash("no-unexpected-exception", e.what()); }
  catch (...) { crash("no-unexpected-exception", "unknown exception"); }
  fedisableexcept(FE_ALL_EXCEPT);
  endPath(&S->paths);
}
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += ' '; else r += c; }
  return r + "\"";
}
int main(int argc, char** argv) {
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (getenv("SYM_OUT")) g_out = getenv("SYM_OUT");
  g_thorough = getenv("SYM_THOROUGH") != nullptr;
  g_trace = getenv("SYM_TRACE") != nullptr;
  double budget = getenv("SYM_BUDGET") ? atof(getenv("SYM_BUDGET")) : 120;
  if (getenv("SYM_RLIMIT")) g_rlimit = atol(getenv("SYM_RLIMIT"));
  int jobs = getenv("SYM_JOBS") ? atoi(getenv("SYM_JOBS")) : 8;
  S->tokens.store(jobs);
  std::string only = argc > 1 ? argv[1] : "";
  polyVarName = vname;
  uint32_t e = newVar("eps", 'E'); (void)e;
  g_pi = newVar("pi", 'P');
  vars[g_pi].hasLo = vars[g_pi].hasHi = true; vars[g_pi].lo = Q(31415926535L, 10000000000L); vars[g_pi].hi = Q(31415926536L, 10000000000L);
  model[g_pi].exact = false; model[g_pi].f = F("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899", PREC);
  nodes.push_back(Node{CONST, 0, 0, new Frac, 0});
  Z3_global_param_set("memory_max_size", "3000");
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onZ3Err);
  signal(SIGALRM, onAlarm);
  double t0 = now(); g_deadline = t0 + budget;
  std::vector<pid_t> kids;
  for (auto& sc : sym::scenarios()) {
    if (sc.tier > 0 && !g_thorough && only.empty()) continue;
    if (!only.empty() && only != sc.name) continue;
    while (!takeToken()) usleep(2000);
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
      g_holdsToken = true;
      stack_t ss; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; ss.ss_flags = 0; sigaltstack(&ss, 0);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
      sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
      feclearexcept(FE_ALL_EXCEPT);
      feenableexcept(FE_INVALID);
      runScenario(sc);
      _exit(0);
    }
    kids.push_back(p);
  }
  for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) S->leaks.fetch_add(1); }
  // summary
  std::ofstream o(g_out + "/summary.json");
  o << "{\"paths\":" << S->paths + S->stopped << ",\"forks\":" << S->forks << ",\"queries\":" << S->queries << ",\"sat\":" << S->qsat << ",\"unsat\":" << S->qunsat
    << ",\"unknown\":" << S->qunknown << ",\"solver_s\":" << S->solverUs / 1e6 << ",\"wall_s\":" << now() - t0 << ",\"assumed_out\":" << S->assumedOut << ",\"infeasible\":" << S->infeasible
    << ",\"leaks\":" << S->leaks << ",\"unsupported\":" << S->unsupported << ",\"too_big\":" << S->tooBig << ",\"truncated\":" << S->truncated << ",\"cex\":" << S->cex << ",\n\"labels\":[";
  for (int i = 0; i < S->nlabels; ++i) {
    LabelRec& L = S->labels[i];
    o << (i ? ",\n" : "\n") << "{\"name\":" << js(L.name) << ",\"checked\":" << L.checked << ",\"nf\":" << L.byNF << ",\"solver\":" << L.bySolver << ",\"undecided\":" << L.undecided << ",\"violated\":" << L.violated << ",\"reached\":" << L.reached << "}";
  }
  o << "],\n\"messages\":[";
  for (int i = 0; i < S->nLeakMsg && i < 20; ++i) o << (i ? ",\n" : "\n") << js(S->leakMsg[i]);
  o << "],\n\"functions\":[";
  std::set<std::string> fns;
  if (__start_symrecs) { long n = __stop_symrecs - __start_symrecs; for (long i = 0; i < n && i < 20000; ++i) if (S->fn[i]) fns.insert(__start_symrecs[i].name); }
  bool first = true;
  for (auto& f : fns) { o << (first ? "\n" : ",\n") << js(f); first = false; }
  o << "]}\n";
  return 0;
}
