// C04: verdict of the hierarchical solver on a configuration.
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include "env.hh"
using namespace env;
typedef solver::HierarchicalIterative HI;
static double clip(ComparisonType t, double e, double thr) {
  if (t == Superior) return e < thr ? e - thr : 0;
  if (t == Inferior) return e > -thr ? e + thr : 0;
  return e;
}
struct C { ImplicitPtr_t I; ComparisonTypes_t c; std::vector<bool> m; vector_t rhs; DifferentiableFunctionPtr_t f; std::size_t prio; };
struct Sys { std::shared_ptr<HI> h; std::vector<C> cs; double thr, ineq; int levels; };
static C mkC(const std::string& n, int out, int prio, bool masks, int ncomp) {
  C c; c.prio = prio;
  c.f.reset(new UF(n, 2, out, range(0, 2)));
  static const ComparisonType t[] = {Equality, Superior, Inferior, EqualToZero};
  for (int i = 0; i < out; ++i) { c.c.push_back(t[sym::choose(nm(n + ".c", i), ncomp)]); c.m.push_back(masks ? sym::flag(nm(n + ".m", i)) : true); }
  c.rhs.resize(out);
  for (int i = 0; i < out; ++i) c.rhs[i] = c.c[i] == Equality ? sym::real(nm(n + ".r", i)) : 0;
  c.I = Implicit::create(c.f, c.c, c.m);
  return c;
}
static void addAll(Sys& s) {
  s.h.reset(new HI(LiegroupSpace::Rn(2)));
  s.thr = sym::real("threshold", 0, 10); s.ineq = sym::real("inequality_threshold", 0, 10);
  s.h->errorThreshold(s.thr); s.h->inequalityThreshold(s.ineq);
  for (auto& c : s.cs) s.h->add(c.I, c.prio);
  for (auto& c : s.cs) sym::check(s.h->rightHandSide(c.I, c.rhs), "right-hand side accepted");
}
static vector_t res(const C& c, const vector_t& q, double ineq) {
  vector_t v = (*c.f)(q).vector(), e(v.size());
  for (long i = 0; i < v.size(); ++i) e[i] = c.m[i] ? clip(c.c[i], v[i] - c.rhs[i], ineq) : 0;
  return e;
}
static bool below(const vector_t& e, double thr) { return e.squaredNorm() < thr * thr; }
static void verdict(Sys& s, int optional) {
  s.h->lastIsOptional(optional != 0);
  vector_t q = vec("q", 2);
  bool got = s.h->isSatisfied(q);
  vector_t err(0);
  size_t n = 0; for (auto& c : s.cs) n += c.c.size();
  err.resize(n);
  s.h->residualError(err);
  bool ref = true;
  int last = s.h->numberStacks() - 1;
  // the stacked residual lists the levels in order, and inside a level the constraints in order of addition
  long row = 0;
  for (int p = 0; p <= last; ++p) for (auto& c : s.cs) if ((int)c.prio == p) {
    vector_t e = res(c, q, s.ineq);
    for (long i = 0; i < e.size(); ++i) sym::check_eq(err[row + i], e[i], "residual of each active row");
    row += e.size();
    if (optional && p == last) continue;
    if (!below(e, s.thr)) ref = false;
  }
  sym::check(got == ref, "satisfied iff every required constraint is within the threshold");
  if (sym::flag("other_threshold")) {
    double t2 = sym::real("t2", 0, 10);
    bool got2 = s.h->isSatisfied(q, t2), ref2 = true;
    for (auto& c : s.cs) if (!(optional && (int)c.prio == last) && !below(res(c, q, s.ineq), t2)) ref2 = false;
    sym::check(got2 == ref2, "verdict for an explicitly given threshold");
  }
}
SCENARIO(single_constraint) { Sys s; s.cs = {mkC("f", 2, 0, true, 4)}; addAll(s); verdict(s, 0); }
SCENARIO(two_constraints_one_level) { Sys s; s.cs = {mkC("f", 1, 0, true, 3), mkC("g", 1, 0, true, 3)}; addAll(s); verdict(s, 0); }
SCENARIO(two_levels) { Sys s; s.cs = {mkC("f", 1, 0, false, 3), mkC("g", 1, 1, true, 3)}; addAll(s); verdict(s, sym::choose("optional", 2)); }
SCENARIO(three_constraints_two_levels) { Sys s; s.cs = {mkC("f", 1, 0, false, 1), mkC("g", 2, 1, false, 1), mkC("h", 1, 0, true, 2)}; addAll(s); verdict(s, sym::choose("optional", 2)); }
SCENARIO(three_constraints_one_level) { Sys s; s.cs = {mkC("f", 1, 0, false, 1), mkC("g", 2, 0, false, 1), mkC("h", 1, 0, true, 3)}; addAll(s); verdict(s, 0); }
SCENARIO(three_levels) { Sys s; s.cs = {mkC("f", 1, 0, false, 1), mkC("g", 1, 1, false, 2), mkC("h", 1, 2, false, 1)}; addAll(s); verdict(s, sym::choose("optional", 2)); }
SCENARIO(asked_for_one_constraint) {
  Sys s; s.cs = {mkC("f", 1, 0, true, 4), mkC("g", 2, sym::choose("prio", 2), true, 4)}; addAll(s);
  vector_t q = vec("q", 2);
  for (auto& c : s.cs) {
    vector_t e(c.c.size()); bool found = false;
    bool got = s.h->isConstraintSatisfied(c.I, q, e, found);
    vector_t r = res(c, q, s.ineq);
    sym::check(found, "constraint found");
    for (long i = 0; i < r.size(); ++i) sym::check_eq(e[i], r[i], "error of one constraint");
    sym::check(got == below(r, s.thr), "one constraint satisfied iff within the threshold");
  }
  vector_t e(2); bool found = true;
  C o = mkC("other", 2, 0, false, 1);
  sym::check(!s.h->isConstraintSatisfied(o.I, q, e, found) && !found, "unknown constraint is reported as not found");
}
