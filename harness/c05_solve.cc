// C05: the iterative solver (hierarchical solver, no substitution).
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include "env.hh"
using namespace env;
namespace ls = hpp::constraints::solver::lineSearch;
typedef solver::HierarchicalIterative HI;
// stand-in for the computation of the descent direction: arbitrary
static int directions = 0;
namespace hpp { namespace constraints { namespace solver {
void HierarchicalIterative::computeDescentDirection() const {
  dqSmall_ = vec(nm("dq", directions++), freeVariables_.nbIndices());
  sigma_ = 1;
  expandDqSmall();
}
} } }
namespace {
struct Count : public UF {
  mutable int values = 0, jacs = 0;
  Count(const std::string& n, int in, int out, const std::vector<int>& active) : UF(n, in, out, active) {}
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { ++values; UF::impl_compute(r, x); }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const { ++jacs; UF::impl_jacobian(J, x); }
};
struct Con { std::shared_ptr<Count> f; ImplicitPtr_t c; ComparisonTypes_t ct; int prio; };
struct Sys {
  std::shared_ptr<HI> h; std::vector<Con> cs; double thr, ineq; int nq;
  Sys(int n) : nq(n) { h.reset(new HI(LiegroupSpace::Rn(n))); thr = sym::real("threshold", 0.01, 2); ineq = 0; h->errorThreshold(thr); h->inequalityThreshold(0); }
  void add(const std::string& n, const std::vector<int>& act, int prio, const ComparisonTypes_t& ct) {
    Con c; c.f.reset(new Count(n, nq, ct.size(), act)); c.ct = ct; c.prio = prio; c.c = Implicit::create(c.f, ct); cs.push_back(c); h->add(c.c, prio);
  }
  // squared norm of the residual of a constraint
  double res(const Con& c, const vector_t& q) const {
    vector_t v = c.f->at(q); double s = 0;
    for (long i = 0; i < v.size(); ++i) { double e = v[i]; if (c.ct[i] == Superior && !(e < 0)) e = 0; if (c.ct[i] == Inferior && !(e > 0)) e = 0; s = s + e * e; }
    return s;
  }
  bool ok(const vector_t& q, int lastRequired) const { bool r = true; for (auto& c : cs) if (c.prio <= lastRequired && !(res(c, q) <= thr * thr)) r = false; return r; }
};
}  // namespace
template <class L> static void run(Sys& s, int iters, L l, int lastRequired = 99) {
  s.h->maxIterations(iters);
  vector_t q0 = vec("q", s.nq), q = q0;
  bool initially = s.ok(q0, lastRequired);
  for (auto& c : s.cs) c.f->jacs = c.f->values = 0;
  HI::Status st = s.h->solve(q, l);
  int jacs = s.cs[0].f->jacs;
  bool finally = s.ok(q, lastRequired);
  if (st == HI::SUCCESS) sym::check(finally, "success implies that the returned configuration satisfies every required level");
  else sym::check(!finally, "a failure is not reported for a satisfying configuration");
  if (initially) {
    sym::check(st == HI::SUCCESS, "a satisfying configuration is a success");
    for (long i = 0; i < q.size(); ++i) sym::check_eq(q[i], q0[i], "a satisfying configuration is returned unchanged");
  }
  sym::check(jacs <= iters + 1, "at most the given number of iterations");
  if (st == HI::MAX_ITERATION_REACHED) sym::check(jacs == iters + 1, "the iteration status is returned only when all iterations are used");
}
static void any(Sys& s, int iters, int lastRequired = 99) {
  switch (sym::choose("line_search", 4)) {
    case 0: run(s, iters, ls::Constant(), lastRequired); break;
    case 1: run(s, iters, ls::FixedSequence(), lastRequired); break;
    case 2: run(s, iters, ls::ErrorNormBased(), lastRequired); break;
    case 3: run(s, 1, ls::Backtracking(), lastRequired); break;
  }
}
SCENARIO(one_equality) { Sys s(1); s.add("f", {0}, 0, {Equality}); any(s, 2); }
SCENARIO(one_inequality) {
  Sys s(1);
  s.add("f", {0}, 0, {sym::choose("side", 2) ? Superior : Inferior});
  any(s, 2);
}
SCENARIO(two_levels) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  s.add("g", {0}, 1, {sym::choose("type", 2) ? Superior : Equality});
  bool opt = sym::flag("last_is_optional");
  s.h->lastIsOptional(opt);
  s.h->solveLevelByLevel(sym::flag("level_by_level"));
  run(s, 1, ls::Constant(), opt ? 0 : 1);
}
SCENARIO(two_constraints_one_level) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  s.add("g", {0}, 0, {Equality});
  run(s, 1, ls::FixedSequence());
}
SCENARIO_THOROUGH(three_constraints_one_level) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  s.add("g", {0}, 0, {Equality});
  s.add("k", {0}, 0, {sym::choose("type", 2) ? Inferior : EqualToZero});
  run(s, 1, ls::FixedSequence());
}
SCENARIO_THOROUGH(three_levels) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  s.add("g", {0}, 1, {Equality});
  s.add("k", {0}, 2, {Equality});
  bool opt = sym::flag("last_is_optional");
  s.h->lastIsOptional(opt);
  run(s, 1, ls::Constant(), opt ? 1 : 2);
}
SCENARIO(two_rows) {
  Sys s(2);
  s.add("f", {0, 1}, 0, {Equality, sym::choose("type", 2) ? Superior : EqualToZero});
  run(s, 1, ls::Constant());
}
SCENARIO(long_run) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  run(s, 5, ls::Constant());
}
SCENARIO_THOROUGH(two_levels_backtracking) {
  Sys s(1);
  s.add("f", {0}, 0, {Equality});
  s.add("g", {0}, 1, {Equality});
  run(s, 1, ls::Backtracking());
}
SCENARIO_THOROUGH(longer_run) {
  Sys s(2);
  s.add("f", {0, 1}, 0, {Equality});
  s.add("g", {0, 1}, 0, {Equality});
  run(s, 6, ls::ErrorNormBased());
}
SCENARIO(one_free_of_two) {
  Sys s(2);
  s.add("f", {0, 1}, 0, {Equality});
  segments_t fr; fr.push_back(segment_t(sym::choose("free", 2), 1)); s.h->freeVariables(fr);
  any(s, 2);
}
SCENARIO(no_free_variable) {
  Sys s(1);
  s.add("f", {}, 0, {Equality});
  any(s, 1);
}
SCENARIO(no_constraint) {
  Sys s(1);
  s.h->lastIsOptional(sym::flag("last_is_optional"));
  s.h->maxIterations(1);
  vector_t q = vec("q", 1);
  double q0 = q[0];
  sym::check(s.h->isSatisfied(q), "a configuration satisfies the empty set of constraints");
  sym::check(s.h->solve(q, ls::Constant()) == HI::SUCCESS, "no constraint to satisfy");
  sym::check_eq(q[0], q0, "unchanged");
}
