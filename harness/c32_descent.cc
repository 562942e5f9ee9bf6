// C32: hierarchical descent direction.
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include "subst.hh"
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/by-substitution.hh>
using namespace env;
typedef solver::HierarchicalIterative HI;
namespace {
struct Open : public HI {
  Open(const LiegroupSpacePtr_t& s) : HI(s) {}
  using HI::computeDescentDirection;
};
struct Sys {
  int n; std::shared_ptr<Open> h; std::vector<std::shared_ptr<UF>> f;
  Sys(int k) : n(k) { h.reset(new Open(LiegroupSpace::Rn(n))); h->errorThreshold(1e-3); h->maxIterations(1); }
  void add(const std::string& id, const std::vector<int>& act, int prio, int out = 1) {
    std::shared_ptr<UF> g(new UF(id, n, out, act)); f.push_back(g); h->add(Implicit::create(g, ComparisonTypes_t(out, EqualToZero)), prio);
  }
  matrix_t J(int i, const vector_t& q) { matrix_t j(f[i]->outputSize(), n); f[i]->jacobian(j, q); return j; }
  vector_t run(const vector_t& q) { h->computeValue<true>(q); h->computeError(); h->computeDescentDirection(); return h->lastStep(); }
};
}
// entries are zero or of ordinary magnitude
static void tame(double x) { sym::assume_le(x, 10); sym::assume_le(-10, x); sym::assume(x == 0 || x >= 0.01 || x <= -0.01); }
static void tame(const matrix_t& m) { for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) tame(m(i, j)); }
static void one_row(int n) {
  Sys s(n); s.add("f", range(0, n), 0);
  vector_t q = vec("q", n); matrix_t J = s.J(0, q); double v = s.f[0]->at(q)[0], n2 = 0;
  tame(J);
  for (int i = 0; i < n; ++i) n2 = n2 + J(0, i) * J(0, i);
  vector_t dq = s.run(q); double p = 0;
  if (n2 == 0) { for (int i = 0; i < n; ++i) sym::check_eq(dq[i], 0, "no move without any influence"); return; }
  for (int i = 0; i < n; ++i) p = p + J(0, i) * dq[i];
  sym::check_eq(p, -v, "the first level is solved");
  for (int i = 0; i < n; ++i) sym::check_eq(dq[i] * n2, -v * J(0, i), "by the direction of smallest norm");
}
SCENARIO(one_row_1) { one_row(1); }
SCENARIO(one_row_2) { one_row(2); }
SCENARIO(one_row_3) { one_row(3); }
SCENARIO(two_levels) {
  int n = 2;
  Sys s(n); s.add("f", range(0, n), 0); s.add("g", range(0, n), 1);
  vector_t q = vec("q", n); matrix_t J = s.J(0, q), K = s.J(1, q); double v = s.f[0]->at(q)[0], w = s.f[1]->at(q)[0];
  tame(J); tame(K);
  double n2 = J(0, 0) * J(0, 0) + J(0, 1) * J(0, 1);
  sym::assume_le(0.01, n2);
  double det = J(0, 0) * K(0, 1) - J(0, 1) * K(0, 0); tame(det);
  vector_t dq = s.run(q);
  sym::check_eq(J(0, 0) * dq[0] + J(0, 1) * dq[1], -v, "the first level is solved");
  if (det != 0) sym::check_eq(K(0, 0) * dq[0] + K(0, 1) * dq[1], -w, "the second level is solved in the kernel of the first");
}
// a level without any active row leaves the next ones as if it did not exist
static void empty_level(bool before) {
  int n = 2;
  // a first computation at another configuration
  vector_t p = vec("p", n);
  Sys t(n);
  std::shared_ptr<UF> e(new UF("e", n, 1, {0})), g(new UF("g", n, 1, {0, 1}));
  t.h->add(Implicit::create(e, ComparisonTypes_t(1, EqualToZero), std::vector<bool>(1, false)), 0);
  t.h->add(Implicit::create(g, ComparisonTypes_t(1, EqualToZero)), 1);
  if (before) { matrix_t K(1, n); g->jacobian(K, p); tame(K); t.run(p); }
  vector_t q = vec("q", n); matrix_t K(1, n); g->jacobian(K, q); tame(K);
  double w = g->at(q)[0], n2 = K(0, 0) * K(0, 0) + K(0, 1) * K(0, 1);
  vector_t dq = t.run(q);
  for (int i = 0; i < n; ++i) sym::check_eq(dq[i] * n2, n2 == 0 ? 0 : -w * K(0, i), "the first level with active rows is solved by the direction of smallest norm");
}
SCENARIO(empty_first_level) { empty_level(false); }
SCENARIO(empty_first_level_again) { empty_level(true); }
SCENARIO(level_by_level) {
  int n = 2;
  Sys s(n); s.add("f", {0}, 0); s.add("g", {0, 1}, 1);
  s.h->solveLevelByLevel(true);
  vector_t q = vec("q", n); matrix_t J = s.J(0, q), K = s.J(1, q); double v = s.f[0]->at(q)[0], w = s.f[1]->at(q)[0];
  tame(J); tame(K); sym::assume_ne(J(0, 0), 0); tame(v);
  vector_t dq = s.run(q);
  sym::check_eq(J(0, 0) * dq[0], -v, "the first level is solved");
  if (v != 0) sym::check_eq(dq[1], 0, "the second level is ignored until the first one is satisfied");
  else if (K(0, 1) != 0) sym::check_eq(K(0, 0) * dq[0] + K(0, 1) * dq[1], -w, "the second level is solved in the kernel of the first");
}
SCENARIO(least_squares) {
  Sys s(1); s.add("f", {0}, 0, 2);
  vector_t q = vec("q", 1); matrix_t J = s.J(0, q); vector_t v = s.f[0]->at(q);
  tame(J);
  double n2 = J(0, 0) * J(0, 0) + J(1, 0) * J(1, 0);
  vector_t dq = s.run(q);
  if (n2 == 0) sym::check_eq(dq[0], 0, "no move without any influence");
  else sym::check_eq(dq[0] * n2, -(J(0, 0) * v[0] + J(1, 0) * v[1]), "a level that cannot be satisfied is solved in the least squares sense");
}
SCENARIO(least_squares_two_constraints) {
  Sys s(1); s.add("f", {0}, 0); s.add("g", {0}, 0); s.add("k", {0}, 1);
  vector_t q = vec("q", 1); matrix_t J = s.J(0, q), K = s.J(1, q); double v = s.f[0]->at(q)[0], w = s.f[1]->at(q)[0];
  tame(J); tame(K); tame(s.J(2, q));
  double n2 = J(0, 0) * J(0, 0) + K(0, 0) * K(0, 0);
  vector_t dq = s.run(q);
  if (n2 != 0) sym::check_eq(dq[0] * n2, -(J(0, 0) * v + K(0, 0) * w), "a level that cannot be satisfied is solved in the least squares sense");
  else if (K.rows()) { matrix_t M = s.J(2, q); if (M(0, 0) != 0) sym::check_eq(dq[0] * M(0, 0), -s.f[2]->at(q)[0], "a level without influence leaves the next one free"); }
}
// two rows, the second variable has no influence on them
SCENARIO(dependent_rows) {
  Sys s(2); s.add("f", {0}, 0, 2); s.add("k", {1}, 1);
  vector_t q = vec("q", 2); matrix_t J = s.J(0, q), K = s.J(1, q); vector_t v = s.f[0]->at(q); double w = s.f[1]->at(q)[0];
  tame(J); tame(K);
  double n2 = J(0, 0) * J(0, 0) + J(1, 0) * J(1, 0);
  vector_t dq = s.run(q);
  sym::check_eq(dq[0] * n2, -(J(0, 0) * v[0] + J(1, 0) * v[1]), "a level that cannot be satisfied is solved in the least squares sense");
  if (K(0, 1) != 0) sym::check_eq(K(0, 1) * dq[1], -w, "a variable without influence on the first level solves the second one");
}
SCENARIO(free_variables) {
  int n = 3;
  Sys s(n); s.add("f", range(0, n), 0);
  int fz = sym::choose("frozen", n);
  segments_t fr; for (int i = 0; i < n; ++i) if (i != fz) fr.push_back(segment_t(i, 1));
  s.h->freeVariables(fr);
  vector_t q = vec("q", n); matrix_t J = s.J(0, q); double v = s.f[0]->at(q)[0], n2 = 0;
  tame(J);
  for (int i = 0; i < n; ++i) if (i != fz) n2 = n2 + J(0, i) * J(0, i);
  vector_t dq = s.run(q);
  for (int i = 0; i < n; ++i) sym::check_eq(dq[i] * n2, i == fz || n2 == 0 ? 0 : -v * J(0, i), "only free variables move, by the direction of smallest norm");
}
SCENARIO(three_levels) {
  int n = 2;
  Sys s(n); s.add("f", {0}, 0); s.add("g", range(0, n), 1); s.add("k", range(0, n), 2);
  vector_t q = vec("q", n); matrix_t J = s.J(0, q), K = s.J(1, q); double v = s.f[0]->at(q)[0], w = s.f[1]->at(q)[0];
  tame(J); tame(K); tame(s.J(2, q)); sym::assume_ne(J(0, 0), 0);
  vector_t dq = s.run(q);
  sym::check_eq(J(0, 0) * dq[0], -v, "the first level is solved");
  if (K(0, 1) != 0) sym::check_eq(K(0, 0) * dq[0] + K(0, 1) * dq[1], -w, "the second level is solved in the kernel of the first");
}

SCENARIO(single_empty_level) {
  int n = 2; Sys t(n);
  std::shared_ptr<UF> e(new UF("e", n, 1, {0, 1}));
  t.h->add(Implicit::create(e, ComparisonTypes_t(1, EqualToZero), std::vector<bool>(1, false)), 0);
  vector_t q = vec("q", n), dq = t.run(q);
  for (int i = 0; i < n; ++i) sym::check_eq(dq[i], 0, "no move without any active row");
}

// one step from a configuration whose explicit outputs are consistent
SCENARIO(one_step) {
  bool ex = sym::choose("explicit", 2);
  std::shared_ptr<BS> s(new BS(LiegroupSpace::Rn(2))); s->errorThreshold(1e-3);
  std::shared_ptr<UF> f(new UF("f", 2, 1, {0, 1})), g(new UF("g", 1, 1, {0}));
  s->add(Implicit::create(f, ComparisonTypes_t(1, EqualToZero)));
  if (ex) s->add(Explicit::create(LiegroupSpace::Rn(2), g, segments_t(1, segment_t(0, 1)), segments_t(1, segment_t(1, 1)), segments_t(1, segment_t(0, 1)), segments_t(1, segment_t(1, 1))));
  solver::lineSearch::Constant l;
  vector_t q;
  int first = 1 - sym::choose("already_used", 2);
  for (int k = first; k < 2; ++k) {
    q = vec(nm("q", k), 2);
    if (ex) q[1] = g->at(q.head(1))[0];
    matrix_t J(1, 2); f->jacobian(J, q);
    tame(J);
    if (k == 0) for (int i = 0; i < 2; ++i) sym::assume_le(0.01, J(0, i));
    double v = f->at(q)[0];
    vector_t q1 = q;
    if (ex) {
      matrix_t G(1, 1); g->jacobian(G, q.head(1)); tame(G);
      if (k == 0) sym::assume_le(0.01, G(0, 0));
      double r = J(0, 0) + J(0, 1) * G(0, 0); sym::assume(r == 0 || r >= 0.01 || r <= -0.01);
      s->oneStep(q1, l);
      if (r != 0) sym::check_eq((q1[0] - q[0]) * r, -v, "the step solves the constraint to first order");
      else sym::check_eq(q1[0], q[0], "no move without any influence");
      sym::check_eq(q1[1], g->at(q1.head(1))[0], "outputs of the result are the functions of its inputs");
    } else {
      double n2 = J(0, 0) * J(0, 0) + J(0, 1) * J(0, 1);
      s->oneStep(q1, l);
      for (int i = 0; i < 2; ++i) sym::check_eq((q1[i] - q[i]) * n2, n2 == 0 ? 0 : -v * J(0, i), "the step solves the constraint to first order with the smallest norm");
    }
  }
}
