// C12: solving by substitution.
#include "subst.hh"
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/by-substitution.hh>
using namespace env;
namespace ls = hpp::constraints::solver::lineSearch;
// stand-in for the computation of the descent direction: arbitrary
static int directions = 0;
namespace hpp { namespace constraints { namespace solver {
void HierarchicalIterative::computeDescentDirection() const {
  dqSmall_ = vec(nm("dq", directions++), freeVariables_.nbIndices());
  sigma_ = 1;
  expandDqSmall();
}
} } }
namespace {
// explicit function defined on a half space of its input only
struct Partial : public LF {
  mutable int fails = 0;
  Partial(const std::string& n, const LiegroupSpacePtr_t& i, const LiegroupSpacePtr_t& o) : LF(n, i, o) {}
  static double guard(vectorIn_t x) { return sym::uf("dom", {x[0]}); }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { if (guard(x) < 0) { ++fails; throw FunctionNotDefinedForThisValue(); } LF::impl_compute(r, x); }
};
}
static double sq(const vector_t& v) { double s = 0; for (long i = 0; i < v.size(); ++i) s = s + v[i] * v[i]; return s; }
static bool implOk(const Mixed& m, const vector_t& q, double thr2, int lastRequired) {
  bool r = true;
  for (auto& i : m.I) if (i.prio <= lastRequired && !(sq(m.implRes(i, q, 0)) < thr2)) r = false;
  return r;
}
static void consistent(const Mixed& m, const vector_t& q) {
  for (auto& e : m.E) { vector_t g = m.explGap(e, q); for (long k = 0; k < g.size(); ++k) sym::check_eq(g[k], 0, "outputs of the result are the functions of its inputs", 1e-6); }
}
template <class L> static void go(Mixed& m, int iters, L l, int lastRequired = 99) {
  m.setRhs();
  double thr = sym::real("threshold", 0.1, 2);
  m.s->errorThreshold(thr); m.s->inequalityThreshold(0); m.s->maxIterations(iters);
  vector_t q = elem("q", m.L.all), q0 = q;
  m.s->explicitConstraintSet().solve(q0);
  bool ini = implOk(m, q0, thr * thr, lastRequired), half = implOk(m, q0, 0.25 * thr * thr, lastRequired);
  bool given = sym::flag("initial_outputs_consistent");
  if (given) q = q0;
  BS::Status st = m.s->solve(q, l);
  consistent(m, q);
  if (st == BS::SUCCESS) { sym::check(implOk(m, q, thr * thr, lastRequired), "success implies that the implicit constraints are satisfied"); }
  if (ini) sym::check(st == BS::SUCCESS, "a configuration that satisfies after substitution is a success");
  if (half) for (long k = 0; k < q.size(); ++k) sym::check_eq(q[k], q0[k], "a configuration well within the thresholds is only completed by its explicit outputs", 1e-6);
}
static void any(Mixed& m, int iters, int lastRequired = 99) {
  switch (sym::choose("line_search", 3)) {
    case 0: return go(m, iters, ls::Constant(), lastRequired);
    case 1: return go(m, iters, ls::FixedSequence(), lastRequired);
    default: return go(m, iters, ls::ErrorNormBased(), lastRequired);
  }
}
static ComparisonTypes_t eq(int n) { return ComparisonTypes_t(n, Equality); }
SCENARIO(one_of_each) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, {sym::choose("type", 2) ? Superior : Equality}));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true);
  any(m, 2);
}
SCENARIO(initially_satisfying) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true); m.setRhs();
  double thr = sym::real("threshold", 0.1, 2);
  m.s->errorThreshold(thr); m.s->inequalityThreshold(0); m.s->maxIterations(sym::choose("iterations", 4));
  vector_t q = elem("q", m.L.all);
  m.s->explicitConstraintSet().solve(q);
  if (!implOk(m, q, thr * thr, 99)) sym::stop();
  sym::check(m.s->solve(q, ls::Constant()) == BS::SUCCESS, "a satisfying configuration is a success");
  sym::check(implOk(m, q, thr * thr, 99), "success implies that the implicit constraints are satisfied");
  consistent(m, q);
}
SCENARIO(chain) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "p", 1, {3, 1}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.E.push_back(mkE(m.L, "g", {1, 2}, {3}, eq(1)));
  m.build(sym::flag("explicit_first"));
  go(m, 1, ls::Constant());
}
SCENARIO(two_levels) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, eq(1)));
  m.I.push_back(mkI(m.L, "r", 1, {1}, 1, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true);
  bool opt = sym::flag("last_is_optional");
  m.s->lastIsOptional(opt);
  go(m, 1, ls::Constant(), opt ? 0 : 1);
}
SCENARIO(nothing_to_move) {
  // the implicit constraint depends on the output of a constant explicit function only
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {1}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {}, {1}, eq(1)));
  m.build(true);
  any(m, 2);
}
SCENARIO(only_explicit) {
  Mixed m(flat(3));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.E.push_back(mkE(m.L, "g", {1}, {2}, eq(1)));
  m.build(true);
  m.s->lastIsOptional(sym::flag("last_is_optional"));
  any(m, 2);
}
SCENARIO(backtracking) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true);
  go(m, 1, ls::Backtracking());
}
// optimization of the last level
static void optimize(int iters, bool wide) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, eq(1)));
  m.I.push_back(mkI(m.L, "cost", 1, {wide ? 0 : 1}, 1, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true); m.setRhs();
  m.s->lastIsOptional(true);
  double thr = sym::real("threshold", 0.1, 2);
  m.s->errorThreshold(thr); m.s->inequalityThreshold(0); m.s->maxIterations(iters);
  vector_t q = elem("q", m.L.all);
  m.s->explicitConstraintSet().solve(q);
  sym::assume_le(4 * sq(m.implRes(m.I[0], q, 0)), thr * thr);
  double cost = sq(m.implRes(m.I[1], q, 0));
  m.s->solve(q, true, ls::Constant());
  consistent(m, q);
  sym::check(implOk(m, q, thr * thr, 0), "optimizing from a satisfying configuration ends in one");
  sym::check(sq(m.implRes(m.I[1], q, 0)) <= cost, "optimizing does not increase the cost");
}
SCENARIO(optimize_2) { optimize(2, false); }
SCENARIO(optimize_3) { optimize(3, true); }
// explicit function that is not defined everywhere
SCENARIO(domain) {
  Mixed m(flat(2));
  m.I.push_back(mkI(m.L, "p", 1, {0, 1}, 0, eq(1)));
  EC e = mkE(m.L, "f", {0}, {1}, eq(1));
  auto f = std::make_shared<Partial>("f", m.L.space({0}), m.L.space({1}));
  e.f = f; e.c = Explicit::create(m.L.all, e.f, m.L.conf({0}), m.L.conf({1}), m.L.vel({0}), m.L.vel({1}), eq(1));
  m.E.push_back(e);
  m.build(true); m.setRhs();
  double thr = sym::real("threshold", 0.1, 2);
  m.s->errorThreshold(thr); m.s->maxIterations(2);
  vector_t q = elem("q", m.L.all);
  bool ini = false;
  if (!(Partial::guard(q.head(1)) < 0)) { vector_t q0 = q; m.s->explicitConstraintSet().solve(q0); ini = implOk(m, q0, thr * thr, 99); }
  f->fails = 0;
  BS::Status st = m.s->solve(q, ls::Constant());
  int fails = f->fails;
  if (ini) sym::check(st == BS::SUCCESS, "a configuration that satisfies after substitution is a success");
  if (st == BS::SUCCESS) { consistent(m, q); sym::check(implOk(m, q, thr * thr, 99), "success implies that the implicit constraints are satisfied"); }
  else if (fails) sym::check(st == BS::INFEASIBLE, "leaving the domain of definition is reported as infeasible");
}
