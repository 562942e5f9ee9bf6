// C09: acceptance of explicit constraints.
#include "expl.hh"
using namespace env;
typedef std::set<int> S;
static S idx(const segments_t& s) { S r; for (auto& x : s) for (long j = 0; j < x.second; ++j) sym::check(r.insert(x.first + j).second, "no index appears twice"); return r; }
static S minus(const S& a, const S& b) { S r; for (int x : a) if (!b.count(x)) r.insert(x); return r; }
static S confS(const Layout& L, const B& b) { S r; for (int i : b) for (long j = 0; j < L.sp[i]->nq(); ++j) r.insert(L.q[i] + j); return r; }
static S velS(const Layout& L, const B& b) { S r; for (int i : b) for (long j = 0; j < L.sp[i]->nv(); ++j) r.insert(L.v[i] + j); return r; }
static void uni(S& a, const S& b) { a.insert(b.begin(), b.end()); }
struct Fn { B in, out; };
static void sets(const ExplicitConstraintSet& e, const Layout& L, const std::vector<Fn>& acc) {
  S in, out, din, dout, all = confS(L, range(0, L.sp.size())), dall = velS(L, range(0, L.sp.size()));
  for (auto& f : acc) { uni(in, confS(L, f.in)); uni(out, confS(L, f.out)); uni(din, velS(L, f.in)); uni(dout, velS(L, f.out)); }
  sym::check(idx(e.outArgs().rows()) == out, "output variables");
  sym::check(idx(e.outDers().rows()) == dout, "output velocities");
  sym::check(idx(e.inArgs().rows()) == minus(in, out), "input variables");
  sym::check(idx(e.inDers().cols()) == minus(din, dout), "input velocities");
  sym::check(idx(e.notOutArgs().rows()) == minus(all, out), "variables that are not outputs");
  sym::check(idx(e.notOutDers().cols()) == minus(dall, dout), "velocities that are not outputs");
  sym::check(idx(e.activeParameters().cols()) == minus(in, out) && idx(e.activeDerivativeParameters().cols()) == minus(din, dout), "active parameters");
  sym::check((long)e.outArgs().nbIndices() == (long)out.size() && (long)e.inDers().nbIndices() == (long)minus(din, dout).size() && (long)e.notOutArgs().nbIndices() == (long)minus(all, out).size(), "numbers of indices");
}
static bool cyclic(std::vector<Fn> fs) {  // can every function be evaluated after those it needs?
  std::vector<bool> done(fs.size(), false);
  for (size_t k = 0; k < fs.size(); ++k) for (size_t i = 0; i < fs.size(); ++i) if (!done[i]) {
    bool ready = true;
    for (size_t j = 0; j < fs.size(); ++j) if (!done[j]) for (int a : fs[i].in) for (int b : fs[j].out) if (a == b) ready = false;
    if (ready) done[i] = true;
  }
  for (bool d : done) if (!d) return true;
  return false;
}
static Fn pick(const Layout& L, const std::string& n, int maxlen, int maxin) {
  Fn f; int N = L.sp.size();
  int o = sym::choose(n + ".out", N), l = 1 + sym::choose(n + ".len", std::min(maxlen, N - o));
  f.out = range(o, o + l);
  for (int i = 0; i < N; ++i) if ((i < o || i >= o + l) && (int)f.in.size() < maxin && sym::flag(nm(n + ".in", i))) f.in.push_back(i);
  return f;
}
static void sequence(const Layout& L, int n, int maxlen, int maxin, bool comps) {
  ExplicitConstraintSet e(L.all);
  std::vector<Fn> acc;
  std::vector<EC> keep;
  for (int k = 0; k < n; ++k) {
    std::string id(1, "fgh"[k]);
    Fn f = pick(L, id, maxlen, maxin);
    ComparisonTypes_t ct;
    bool badComp = false;
    for (long i = 0; i < L.space(f.out)->nv(); ++i) { ct.push_back(comps ? comp(nm(id + ".c", i)) : EqualToZero); if (ct.back() != Equality && ct.back() != EqualToZero) badComp = true; }
    EC c = mkE(L, id, f.in, f.out, ct);
    bool clash = false;
    for (auto& a : acc) for (int x : a.out) for (int y : f.out) if (x == y) clash = true;
    std::vector<Fn> with = acc; with.push_back(f);
    bool ok = !badComp && !clash && !cyclic(with);
    sym::check(!e.contains(c.c), "not contained before");
    vector_t r0 = e.rightHandSide();
    long got = e.add(c.c);
    sym::check(got == (ok ? (long)acc.size() : -1), "accepted iff no output is computed twice and no loop appears");
    sym::check(e.contains(c.c) == ok, "contained iff accepted");
    if (ok) { acc = with; keep.push_back(c); }
    sets(e, L, acc);
    long es = 0, rs = 0; for (auto& a : keep) es += a.c->function().outputDerivativeSize(), rs += a.c->function().outputSize();
    sym::check(e.errorSize() == es && e.rightHandSideSize() == rs, "size of error and right-hand side");
    if (!ok) sym::check(e.rightHandSide().size() == r0.size(), "rejected constraint changes nothing");
    // dependencies: how many ways a free velocity influences a function
    for (size_t i = 0; i < acc.size(); ++i) for (int b = 0; b < (int)L.sp.size(); ++b) {
      std::function<long(size_t)> ways = [&](size_t j) -> long { long w = 0; for (int a : acc[j].in) { int by = -1; for (size_t m = 0; m < acc.size(); ++m) for (int o : acc[m].out) if (o == a) by = m; if (by < 0) w += a == b; else w += ways(by); } return w; };
      long w = ways(i);
      for (long j = 0; j < L.sp[b]->nv(); ++j) sym::check((e.inOutDependencies()(i, L.v[b] + j) != 0) == (w != 0), "dependency table");
    }
  }
}
SCENARIO(two_additions) { sequence(mixed(), 2, 2, 3, false); }
SCENARIO(two_additions_comparison_types) { sequence(flat(3), 2, 1, 1, true); }
SCENARIO(three_additions_one_input) { sequence(flat(4), 3, 1, 1, false); }
SCENARIO(three_additions_two_inputs) { sequence(flat(3), 3, 1, 2, false); }
SCENARIO_THOROUGH(three_additions_long_outputs) { sequence(flat(4), 3, 2, 2, false); }
SCENARIO_THOROUGH(four_additions_one_input) { sequence(flat(4), 3, 1, 1, false); }
SCENARIO(malformed) {
  Layout L = flat(4);
  Fn f; int o = sym::choose("o", 3); f.out = range(o, o + 1 + sym::choose("len", 2));
  int i = sym::choose("i", 4);
  if (o + (int)f.out.size() > 4) sym::stop();
  bool bad = i >= o && i < o + (int)f.out.size();
  ExplicitConstraintSet e(L.all);
  EC g = mkE(L, "g", {}, {3}, {EqualToZero});
  bool thrown = false; long r = 0;
  if (f.out.size() + 1 > 4) sym::stop();
  EC c = mkE(L, "f", {i}, f.out, ComparisonTypes_t(f.out.size(), EqualToZero));
  try { r = e.add(c.c); } catch (const std::logic_error&) { thrown = true; }
  sym::check(thrown == bad, "constraint whose inputs and outputs overlap is refused with an error");
  sets(e, L, bad ? std::vector<Fn>{} : std::vector<Fn>{{{i}, f.out}});
  if (!bad) sym::check(r == 0, "index of the first constraint");
}
// interval starts are symbolic integers: the solver decides which overlaps are possible
static void symbolicStarts(int N, int n, bool outLen, bool inLen) {
  Layout L = flat(N);
  ExplicitConstraintSet e(L.all);
  struct D { long o, lo, i, li; };
  std::vector<D> acc;
  auto meet = [](long a, long la, long b, long lb) { return a < b + lb && b < a + la; };
  for (int k = 0; k < n; ++k) {
    std::string id(1, "fgh"[k]);
    D d; d.lo = outLen ? 1 + sym::choose(id + ".outlen", 2) : 1; d.li = inLen ? 1 + sym::choose(id + ".inlen", 2) : 1;
    d.o = sym::integer(id + ".out", 0, N - d.lo); d.i = sym::integer(id + ".in", 0, N - d.li);
    sym::assume(!meet(d.o, d.lo, d.i, d.li));
    segments_t in{segment_t(d.i, d.li)}, out{segment_t(d.o, d.lo)};
    DifferentiableFunctionPtr_t f(new LF(id, LiegroupSpace::Rn(d.li), LiegroupSpace::Rn(d.lo)));
    ExplicitPtr_t c = Explicit::create(L.all, f, in, out, in, out, ComparisonTypes_t(d.lo, Equality));
    long got = e.add(c);
    // reference: outputs are new, and the inputs do not depend on the outputs
    bool ok = true;
    for (auto& a : acc) if (meet(a.o, a.lo, d.o, d.lo)) ok = false;
    std::vector<bool> dep(acc.size(), false);  // accepted functions needed to evaluate the new one
    for (size_t r = 0; r <= acc.size(); ++r) for (size_t a = 0; a < acc.size(); ++a) {
      if (meet(acc[a].o, acc[a].lo, d.i, d.li)) dep[a] = true;
      for (size_t b = 0; b < acc.size(); ++b) if (dep[b] && !dep[a] && meet(acc[a].o, acc[a].lo, acc[b].i, acc[b].li)) dep[a] = true;
    }
    // a cycle closes only through an input actually used: inputs of needed functions that are the new outputs
    for (size_t a = 0; a < acc.size(); ++a) if (dep[a] && meet(acc[a].i, acc[a].li, d.o, d.lo)) ok = false;
    sym::check(got == (ok ? (long)acc.size() : -1), "accepted iff no output is computed twice and no loop appears");
    if (ok) acc.push_back(d);
    if (k + 1 < n) continue;
    // membership of an arbitrary variable
    long x = sym::integer(id + ".x", 0, N - 1);
    bool isOut = false, isIn = false;
    for (auto& a : acc) { if (meet(a.o, a.lo, x, 1)) isOut = true; if (meet(a.i, a.li, x, 1)) isIn = true; }
    auto has = [&](const segments_t& s) { for (auto& y : s) if (y.first <= x && x < y.first + y.second) return true; return false; };
    sym::check(has(e.outArgs().rows()) == isOut && has(e.outDers().rows()) == isOut, "a variable is an output iff some function computes it");
    sym::check(has(e.inArgs().rows()) == (isIn && !isOut) && has(e.inDers().cols()) == (isIn && !isOut), "a variable is an input iff it is used and not computed");
    sym::check(has(e.notOutArgs().rows()) == !isOut && has(e.notOutDers().cols()) == !isOut, "a variable is free iff it is not computed");
  }
}
SCENARIO(symbolic_starts) { symbolicStarts(4, 3, false, false); }
SCENARIO(symbolic_starts_long) { symbolicStarts(4, 2, true, true); }
SCENARIO_THOROUGH(symbolic_starts_wide) { symbolicStarts(6, 3, false, true); }
