// C23: function combinators.
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include "expl.hh"
using namespace env;
typedef std::shared_ptr<LF> F;
static F lf(const std::string& n, const LiegroupSpacePtr_t& i, const LiegroupSpacePtr_t& o) { return F(new LF(n, i, o)); }
// value and Jacobian (over any previous content) against the definition
static void same(const DifferentiableFunction& f, const vector_t& q, const vector_t& v, const matrix_t& J) {
  LiegroupElement r(f.outputSpace()); r.vector() = vec("dirty_value", f.outputSize());
  f.value(r, q);
  eqV(r.vector(), v, "value");
  eqV(f(q).vector(), v, "value returned");
  matrix_t K = mat("dirty", f.outputDerivativeSize(), f.inputDerivativeSize());
  f.jacobian(K, q);
  eqM(K, J, "Jacobian");
  for (long j = 0; j < J.cols(); ++j) if (!f.activeDerivativeParameters()[j]) for (long i = 0; i < J.rows(); ++i) sym::check_eq(J(i, j), 0, "no influence of variables declared inactive");
}
static void deriv(const DifferentiableFunction& f, const LiegroupSpacePtr_t& s, const vector_t& q) {
  matrix_t K = mat("dirty2", f.outputDerivativeSize(), f.inputDerivativeSize()); f.jacobian(K, q);
  vector_t d = vec("v", s->nv()); LiegroupElement y = f(q);
  std::vector<double> r = sym::derivative([&](double t) { vector_t x = (LiegroupElement(q, s) + vector_t(t * d)).vector(); return toV(f(x) - y); });
  for (long i = 0; i < K.rows(); ++i) { double p = 0; for (long j = 0; j < K.cols(); ++j) p = p + K(i, j) * d[j]; sym::check_eq(p, r[i], "the Jacobian is the derivative of the value", 1e-4); }
}
static LiegroupSpacePtr_t out(int k) { return k == 0 ? LiegroupSpace::Rn(2) : k == 1 ? LiegroupSpace::SO2() : k == 2 ? LiegroupSpace::SO3() : LiegroupSpace::R1() * LiegroupSpace::SO2(); }
SCENARIO(constant) {
  if (sym::flag("vector")) {
    vector_t c = vec("c", 2); auto f = ConstantFunction::create(c, 3, 3, "f");
    same(*f, vec("q", 3), c, matrix_t::Zero(2, 3));
  } else {
    LiegroupSpacePtr_t s = out(sym::choose("out", 4)); vector_t c = elem("c", s);
    auto f = ConstantFunction::create(LiegroupElement(c, s), 3, 2, "f");
    same(*f, vec("q", 3), c, matrix_t::Zero(s->nv(), 2));
  }
}
SCENARIO(identity) {
  LiegroupSpacePtr_t s = out(sym::choose("space", 4)); vector_t q = elem("q", s);
  auto f = Identity::create(s, "f"); same(*f, q, q, matrix_t::Identity(s->nv(), s->nv())); deriv(*f, s, q);
}
SCENARIO(affine) {
  matrix_t J = mat("J", 2, 3); if (sym::flag("zero_column")) J.col(sym::choose("column", 3)).setZero();
  vector_t b = vec("b", 2), q = vec("q", 3);
  if (sym::flag("linear")) { auto f = AffineFunction::create(J, "f"); same(*f, q, J * q, J); }
  else { auto f = AffineFunction::create(J, b, "f"); same(*f, q, J * q + b, J); for (int j = 0; j < 3; ++j) sym::check(f->activeParameters()[j] || (J(0, j) == 0 && J(1, j) == 0), "inactive only if the column is zero"); }
}
SCENARIO(stack) {
  Layout L = flat(4); int n = 1 + sym::choose("functions", 3); bool reuse = sym::flag("same_function_twice");
  std::vector<F> f; auto s = DifferentiableFunctionSet::create("s");
  LiegroupSpacePtr_t o = LiegroupSpace::empty();
  for (int k = 0; k < n; ++k) {
    if (k && reuse) f.push_back(f[0]);
    else { f.push_back(lf(nm("f", k), L.all, out(k == 0 ? sym::choose("out", 4) : k))); if (k == 1) f[k]->only({0, 1}, {0, 1}); }
    o = o * f[k]->outputSpace();
  }
  if (sym::flag("merged") && n > 1) {
    auto t = DifferentiableFunctionSet::create("t"); s->add(f[0]); for (int k = 1; k < n; ++k) t->add(f[k]); s->merge(t);
  } else for (auto& g : f) s->add(g);
  sym::check(s->outputSize() == o->nq() && s->outputDerivativeSize() == o->nv(), "output sizes"); sym::check(s->inputSize() == 4 && s->inputDerivativeSize() == 4, "input sizes");
  for (int p = 1 - sym::choose("evaluated_before", 2); p < 2; ++p) {
    vector_t q = elem(nm("q", p), L.all), v(o->nq()); matrix_t J(o->nv(), 4); long a = 0, b = 0;
    for (auto& g : f) { v.segment(a, g->outputSize()) = (*g)(q).vector(); a += g->outputSize(); matrix_t K = mat("k", g->outputDerivativeSize(), 4); g->jacobian(K, q); J.middleRows(b, K.rows()) = K; b += K.rows(); }
    same(*s, q, v, J);
  }
}
// blocks of a configuration space of five blocks
static Layout five() { return Layout({LiegroupSpace::R1(), LiegroupSpace::SO2(), LiegroupSpace::R1(), LiegroupSpace::SO2(), LiegroupSpace::R1()}); }
static segment_t sg(const segments_t& s) { return s[0]; }
SCENARIO(restricted) {
  Layout L = five(); int first = sym::choose("first", 4), size = 1 + sym::choose("size", 2);
  if (first + size > 5) sym::stop();
  B b = range(first, first + size);
  F g = lf("g", L.space(b), out(sym::choose("out", 4)));
  auto f = function::OfParameterSubset::create(g, L.all->nq(), L.all->nv(), sg(L.conf(b)), sg(L.vel(b)));
  vector_t q = elem("q", L.all), x = L.get(q, b);
  matrix_t J = matrix_t::Zero(g->outputDerivativeSize(), L.all->nv()), K(J.rows(), g->inputDerivativeSize());
  g->jacobian(K, x); J.middleCols(sg(L.vel(b)).first, K.cols()) = K;
  same(*f, q, (*g)(x).vector(), J);
  for (long i = 0; i < q.size(); ++i) sym::check(f->activeParameters()[i] == (i >= sg(L.conf(b)).first && i < sg(L.conf(b)).first + sg(L.conf(b)).second), "active variables");
}
static void difference(int o) {
  Layout L = five(); int w = 1 + sym::choose("width", 2), order = sym::choose("order", 2);
  B l = range(0, w), r = range(2, 2 + w);  // R x SO(2) or R
  if (w == 1) { l = {0}; r = {sym::choose("right", 2) ? 4 : 2}; }
  if (order) std::swap(l, r);
  F g = lf("g", L.space(l), out(o));
  std::shared_ptr<DifferentiableFunction> f(new function::Difference(g, L.all->nq(), L.all->nv(), sg(L.conf(l)), sg(L.vel(l)), sg(L.conf(r)), sg(L.vel(r))));
  vector_t q = elem("q", L.all);
  LiegroupElement a = (*g)(L.get(q, l)), b = (*g)(L.get(q, r));
  LiegroupElement y(f->outputSpace()); y.vector() = vec("dirty_value", f->outputSize()); f->value(y, q);
  eqV(y.vector(), vector_t(a - b), "value");
  deriv(*f, L.all, q);
  matrix_t J = mat("dirty3", f->outputDerivativeSize(), L.all->nv()); f->jacobian(J, q);
  for (long j = 0; j < J.cols(); ++j) {
    bool in = (j >= sg(L.vel(l)).first && j < sg(L.vel(l)).first + sg(L.vel(l)).second) || (j >= sg(L.vel(r)).first && j < sg(L.vel(r)).first + sg(L.vel(r)).second);
    sym::check(f->activeDerivativeParameters()[j] == in, "active variables");
    if (!in) for (long i = 0; i < J.rows(); ++i) sym::check_eq(J(i, j), 0, "no influence of other variables");
  }
}
SCENARIO(difference_vector) { difference(0); }
SCENARIO(difference_planar_rotation) { difference(sym::choose("out", 2) ? 1 : 3); }
SCENARIO(difference_rotation) { difference(2); }
SCENARIO(active_set) {
  Layout L = five(); F g = lf("g", L.all, out(sym::choose("out", 4)));
  segments_t s; std::vector<bool> sat(5, false);
  for (int i = 0; i < 5; ++i) if (sym::flag(nm("saturated", i))) { sat[i] = true; s.push_back(segment_t(i, 1)); }
  if (s.size() == 2 && s[1].first == s[0].first + 1) { s.pop_back(); s[0].second = 2; }
  ActiveSetDifferentiableFunction f(g, s);
  vector_t q = elem("q", L.all);
  matrix_t J(g->outputDerivativeSize(), 5); g->jacobian(J, q); for (int j = 0; j < 5; ++j) if (sat[j]) J.col(j).setZero();
  LiegroupElement r(f.outputSpace()); f.value(r, q); eqV(r.vector(), (*g)(q).vector(), "value");
  matrix_t K = mat("dirty", J.rows(), 5); f.jacobian(K, q); eqM(K, J, "Jacobian with the saturated columns set to zero");
}
// numerical differentiation, exact on polynomials of low degree
SCENARIO(finite_differences) {
  bool central = sym::flag("central");
  PF f("f", 2, 2, sym::flag("partial") ? std::vector<int>{1} : range(0, 2), central);
  vector_t x = vec("x", 2); double h = sym::real("h", 0.001, 1);
  matrix_t J(2, 2), K = mat("dirty", 2, 2); f.jacobian(J, x);
  if (central) f.finiteDifferenceCentral(K, x, hpp::pinocchio::DevicePtr_t(), h); else f.finiteDifferenceForward(K, x, hpp::pinocchio::DevicePtr_t(), h);
  eqM(K, J, "numerical derivative");
}
