// C31: line searches.
#include "subst.hh"
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/by-substitution.hh>
using namespace env;
namespace ls = hpp::constraints::solver::lineSearch;
namespace sat = hpp::constraints::solver::saturation;
typedef solver::HierarchicalIterative HI;
// stand-in for the computation of the descent direction: arbitrary
static vector_t direction;
namespace hpp { namespace constraints { namespace solver {
void HierarchicalIterative::computeDescentDirection() const {
  dqSmall_ = freeVariables_.rview(direction);
  sigma_ = 1;
  expandDqSmall();
}
} } }
namespace {
struct Open : public HI {
  Open(const LiegroupSpacePtr_t& s) : HI(s) {}
  using HI::computeDescentDirection;
};
struct Case {
  Layout L; std::shared_ptr<Open> h; std::vector<std::shared_ptr<DifferentiableFunction>> f; std::vector<int> prio; double thr;
  Case(const Layout& l) : L(l) { h.reset(new Open(L.all)); thr = sym::real("threshold", 0.1, 2); h->errorThreshold(thr); h->maxIterations(1); }
  void add(const std::string& n, int out, int p, bool masked = false) {
    std::shared_ptr<LF> g(new LF(n, L.all, LiegroupSpace::Rn(out)));
    if (!masked) { f.push_back(g); prio.push_back(p); }
    h->add(Implicit::create(g, ComparisonTypes_t(out, EqualToZero), std::vector<bool>(out, !masked)), p);
  }
  void prepare(const vector_t& q) { h->computeValue<true>(q); h->computeError(); direction = vec("dq", L.all->nv()); h->computeDescentDirection(); }
  // q moved by alpha times the direction
  vector_t moved(const vector_t& q, double alpha) const { return (LiegroupElement(q, L.all) + vector_t(alpha * direction)).vector(); }
  double err(const vector_t& q, int last = 99) const {
    double m = 0;
    for (size_t i = 0; i < f.size(); ++i) if (prio[i] <= last) { vector_t v = (*f[i])(q).vector(); double s = 0; for (long k = 0; k < v.size(); ++k) s = s + v[k] * v[k]; if (m < s) m = s; }
    return m;
  }
};
}
static void same(const vector_t& a, const vector_t& b, const std::string& l) { for (long k = 0; k < a.size(); ++k) sym::check_eq(a[k], b[k], l, 1e-7); }
SCENARIO(constant) {
  Case c(mixed()); c.add("f", 1, 0);
  vector_t q = elem("q", c.L.all), r = q; c.prepare(q);
  vector_t dq = c.h->lastStep();
  ls::Constant l; sym::check(l(static_cast<const HI&>(*c.h), r, dq), "accepted");
  same(r, c.moved(q, 1), "the full step is taken");
}
SCENARIO(fixed_sequence) {
  Case c(flat(2)); c.add("f", 1, 0);
  ls::FixedSequence l; double alpha = .2;
  for (int k = 0; k < 6; ++k) {
    vector_t q = elem(nm("q", k), c.L.all), r = q; c.prepare(q);
    vector_t dq = c.h->lastStep();
    sym::check(l(static_cast<const HI&>(*c.h), r, dq), "accepted");
    sym::check(alpha > 0 && alpha <= 1, "a fraction of the full step");
    same(r, c.moved(q, alpha), "the step follows the sequence from 0.2 to 0.95");
    same(dq, alpha * direction, "the step taken is returned");
    alpha = .95 - .8 * (.95 - alpha);
  }
}
SCENARIO(error_norm_based) {
  Case c(flat(2)); c.add("f", 1, 0); c.add("g", 1, sym::choose("level", 2));
  vector_t q = elem("q", c.L.all), r = q; c.prepare(q);
  vector_t dq = c.h->lastStep();
  double amin = sym::real("alphaMin", 0.01, 0.99), a = sym::real("a", -2, 2), b = sym::real("b", -2, 2);
  ls::ErrorNormBased l(amin, a, b);
  sym::check(l(static_cast<const HI&>(*c.h), r, dq), "accepted");
  double alpha = (0.5 + amin / 2) - (1 - amin) / 2 * std::tanh(a * (c.err(q) / (c.thr * c.thr)) + b);
  sym::check(alpha >= amin && alpha <= 1, "the fraction lies between its minimum and one");
  same(r, c.moved(q, alpha), "the step follows the documented formula");
  same(dq, alpha * direction, "the step taken is returned");
}
SCENARIO(error_norm_based_default) {
  Case c(flat(1)); c.add("f", 1, 0);
  vector_t q = elem("q", c.L.all), r = q; c.prepare(q);
  vector_t dq = c.h->lastStep();
  ls::ErrorNormBased l(.2);
  l(static_cast<const HI&>(*c.h), r, dq);
  double C = .6, K = .4, a = std::atanh((0.02 - 1 + C) / K) / (1 - 1e6), b = -1e6 * a;
  double alpha = C - K * std::tanh(a * (c.err(q) / (c.thr * c.thr)) + b);
  sym::check(alpha >= .2 - 1e-9 && alpha <= 1 + 1e-9, "the fraction lies between its minimum and one");
  same(r, c.moved(q, alpha), "the step follows the documented formula");
}
static void backtracking(Case& c) {
  vector_t q = elem("q", c.L.all), r = q; c.prepare(q);
  vector_t dq = c.h->lastStep();
  // slope of half the squared error along the direction
  double slope = 0;
  for (auto& f : c.f) {
    vector_t v = (*f)(q).vector(); matrix_t J(v.size(), c.L.all->nv()); f->jacobian(J, q);
    for (long i = 0; i < v.size(); ++i) { double s = 0; for (long j = 0; j < J.cols(); ++j) s = s + J(i, j) * direction[j]; slope = slope + s * v[i]; }
  }
  double e0 = c.err(q), t = 2 * 0.001 * slope;
  ls::Backtracking l;
  bool ok = l(static_cast<const HI&>(*c.h), r, dq);
  bool found = false;
  if (!(t > 0)) {
    for (double alpha = 1; alpha > .2; alpha *= .7) {
      if (e0 - c.err(c.moved(q, alpha)) >= -alpha * t) {
        sym::check(ok, "a step with sufficient decrease is accepted");
        same(r, c.moved(q, alpha), "the largest fraction with sufficient decrease is taken");
        same(dq, alpha * direction, "the step taken is returned");
        found = true;
        break;
      }
    }
  }
  if (!found) {
    sym::check(!ok, "failure is reported when no fraction gives a sufficient decrease");
    same(r, c.moved(q, .2), "the smallest fraction is taken when no fraction gives a sufficient decrease");
    same(dq, .2 * direction, "the step taken is returned");
  }
}
SCENARIO(backtracking_one) { Case c(flat(1)); c.add("f", 1, 0); backtracking(c); }
SCENARIO(backtracking_two_constraints) { Case c(flat(1)); c.add("f", 1, 0); c.add("g", 1, 1); backtracking(c); }
SCENARIO(backtracking_several_variables) { Case c(flat(2)); c.add("f", 2, 0); backtracking(c); }
SCENARIO(backtracking_inactive_level) {
  Case c(flat(1)); int p = sym::choose("inactive_level", 2);
  for (int i = 0; i < 2; ++i) c.add(nm("f", i), 1, i, p == i);
  backtracking(c);
}
// one step of the solver by substitution: the residual is the one of the given configuration
SCENARIO(one_step) {
  Mixed m(flat(2)); bool ex = sym::flag("explicit");
  m.I.push_back(mkI(m.L, "f", 1, {0, 1}, 0, {EqualToZero}));
  if (ex) m.E.push_back(mkE(m.L, "g", {0}, {1}, ComparisonTypes_t(1, EqualToZero)));
  m.build(false);
  double thr = sym::real("threshold", 0.1, 2); m.s->errorThreshold(thr); m.s->maxIterations(1);
  bool bt = sym::choose("line_search", 2);
  for (int k = bt || sym::choose("already_used", 2); k < 2; ++k) {
    vector_t q = elem(nm("q", k), m.L.all);
    m.s->explicitConstraintSet().solve(q);
    vector_t r = q;
    direction = vector_t::Zero(2);
    if (k == 0) { ls::ErrorNormBased l(.2, 1, -1); m.s->oneStep(r, l); sym::assume_le(r[0], 0); continue; }
    sym::assume_le(1, q[0]); direction = vec(nm("dq", k), 2); if (ex) direction[1] = 0;
    auto sq = [&](const vector_t& x) { double v = (*m.I[0].f)(x).vector()[0]; return v * v; };
    double f = (*m.I[0].f)(q).vector()[0]; sym::assume(f >= 0.01 || f <= -0.01);
    double alpha = 1;
    if (!bt) {
      ls::ErrorNormBased l(.2, 1, -1);
      alpha = .6 - .4 * std::tanh(sq(q) / (thr * thr) - 1);
      m.s->oneStep(r, l);
    } else {
      // steps of a backtracking search are only checked for sufficient decrease
      if (ex) { sym::stop(); }
      matrix_t J(1, 2); m.I[0].f->jacobian(J, q);
      double t = 0.002 * (J(0, 0) * direction[0] + J(0, 1) * direction[1]) * (*m.I[0].f)(q).vector()[0], a = 1;
      ls::Backtracking l; m.s->oneStep(r, l);
      alpha = .2;
      if (!(t > 0)) for (; a > .2; a *= .7) if (sq(q) - sq(q + a * direction) >= -a * t) { alpha = a; break; }
    }
    vector_t x = q + alpha * direction; m.s->explicitConstraintSet().solve(x);
    same(r, x, "the step corresponds to the residual of the given configuration");
  }
}
SCENARIO(saturated) {
  Case c(flat(1)); c.add("f", 1, 0);
  vector_t lo = vec("lo", 1), up = vec("up", 1); sym::assume_lt(lo[0], up[0]);
  c.h->saturation(std::make_shared<sat::Bounds>(lo, up));
  vector_t q = elem("q", c.L.all), r = q; c.prepare(q);
  vector_t dq = c.h->lastStep();
  double alpha = 1;
  switch (sym::choose("line_search", 2)) {
    case 0: { ls::Constant l; l(static_cast<const HI&>(*c.h), r, dq); break; }
    case 1: { ls::FixedSequence l; l(static_cast<const HI&>(*c.h), r, dq); alpha = .2; break; }
  }
  double x = q[0] + alpha * direction[0];
  if (x < lo[0]) x = lo[0];
  if (x > up[0]) x = up[0];
  sym::check_eq(r[0], x, "the step is saturated");
}
