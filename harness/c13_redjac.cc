// C13: the reduced Jacobian is the derivative of the residual after substitution.
#include "subst.hh"
using namespace env;
static void run(Mixed& m, double ineqSym) {
  for (auto& e : m.E) { sym::assume_le(0.01, e.rhs[0]); }
  m.setRhs();
  double ineq = sym::real("inequality_threshold", 0, 10);
  m.s->errorThreshold(1e-3); m.s->inequalityThreshold(ineq);
  vector_t q = elem("q", m.L.all);
  m.s->explicitConstraintSet().solve(q);
  for (auto& i : m.I) { vector_t v = (*i.f)(q).vector(); for (size_t k = 0; k < i.ct.size(); ++k) if (i.m[k]) { if (i.ct[k] == Superior) sym::assume_ne(v[k] - i.rhs[k], ineq); if (i.ct[k] == Inferior) sym::assume_ne(v[k] - i.rhs[k], -ineq); } }
  m.s->computeValue<true>(q);
  m.s->updateJacobian(q);
  long nf = m.s->freeVariables().nbIndices();
  matrix_t J = mat("dirty", m.s->reducedDimension(), nf);
  m.s->getReducedJacobian(J);
  // a velocity of the free variables
  vector_t vf = vec("v", nf), v = vector_t::Zero(m.L.all->nv());
  m.s->freeVariables().lview(v) = vf;
  // free variables are those that are not outputs
  for (auto& e : m.E) for (int b : e.out) for (long j = 0; j < m.L.sp[b]->nv(); ++j) sym::check_eq(v[m.L.v[b] + j], 0, "outputs are not free variables");
  std::vector<double> d = sym::derivative([&](double t) {
    vector_t x = (LiegroupElement(q, m.L.all) + vector_t(t * v)).vector();
    m.s->explicitConstraintSet().solve(x);
    std::vector<double> r;
    for (auto* i : m.stackOrder()) { vector_t e = m.implRes(*i, x, ineq); for (long k = 0; k < e.size(); ++k) r.push_back(e[k]); }
    return r;
  });
  vector_t ref = J * vf;
  // rows: active rows of the constraints that depend on a free variable after substitution
  long row = 0, all = 0;
  for (auto* i : m.stackOrder()) {
    std::set<int> dep(i->blocks.begin(), i->blocks.end());
    for (int rep = 0; rep < 4; ++rep) for (auto& e : m.E) for (int b : e.out) if (dep.count(b)) { for (int a : e.in) dep.insert(a); }
    bool active = false;
    for (int b : dep) { bool out = false; for (auto& e : m.E) for (int o : e.out) if (o == b) out = true; if (!out) active = true; }
    for (size_t k = 0; k < i->ct.size(); ++k, ++all) {
      if (active && i->m[k]) { sym::check_eq(ref[row], d[all], "reduced Jacobian times velocity is the derivative of the residual", 1e-4); ++row; }
      else if (!active) sym::check_eq(d[all], 0, "residual that cannot be influenced has a zero derivative", 1e-4);
    }
  }
  sym::check(row == ref.size(), "one row per active row of an influenced constraint");
}
static ComparisonTypes_t eq(int n) { return ComparisonTypes_t(n, Equality); }
SCENARIO(chains) {
  auto st = structures();
  const Str& s = st[sym::choose("structure", st.size())];
  Mixed m(mixed());
  static const std::vector<int> bl[] = {{0, 1, 2, 3}, {3}, {1, 2}};
  m.I.push_back(mkI(m.L, "p", 2, bl[sym::choose("depends", 3)], 0, eq(2)));
  for (size_t i = 0; i < s.f.size(); ++i) m.E.push_back(mkE(m.L, std::string(1, "fgh"[i]), s.f[i].first, s.f[i].second, eq(m.L.space(s.f[i].second)->nv())));
  m.build(sym::flag("explicit_first"));
  run(m, 0);
}
SCENARIO(levels_and_masks) {
  Mixed m(mixed());
  std::vector<bool> mk{sym::flag("p.m0"), true};
  m.I.push_back(mkI(m.L, "p", 2, {1, 2}, 0, eq(2), mk));
  m.I.push_back(mkI(m.L, "r", 1, {3, 0}, 1, eq(1)));
  m.I.push_back(mkI(m.L, "s", 1, {2}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.E.push_back(mkE(m.L, "g", {1}, {3}, eq(1)));
  m.build(sym::flag("explicit_first"));
  run(m, 0);
}
SCENARIO(masks_on_second_level) {
  Mixed m(mixed());
  std::vector<bool> mk{sym::flag("p.m0"), sym::flag("p.m1")};
  m.I.push_back(mkI(m.L, "r", 1, {2}, 0, eq(1)));
  m.I.push_back(mkI(m.L, "p", 2, {1, 3}, 1, eq(2), mk));
  if (sym::flag("third")) m.I.push_back(mkI(m.L, "s", 1, {1, 0}, sym::choose("level", 2) + 1, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  if (sym::flag("two")) m.E.push_back(mkE(m.L, "g", {1}, {3}, eq(1)));
  m.build(sym::flag("explicit_first"));
  run(m, 0);
}
SCENARIO(inequalities) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "p", 2, {1, 2}, 0, {comp("c0"), comp("c1")}, {true, sym::flag("m1")}));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(true);
  run(m, 0);
}
SCENARIO(no_explicit) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "p", 2, {1, 2}, 0, eq(2)));
  m.I.push_back(mkI(m.L, "r", 1, {3, 0}, sym::choose("level", 2), eq(1)));
  m.build(true);
  run(m, 0);
}
SCENARIO(rotation) {
  Mixed m(Layout({LiegroupSpace::R1(), LiegroupSpace::SO3(), LiegroupSpace::R1()}));
  m.I.push_back(mkI(m.L, "p", 2, {1, 2}, 0, eq(2)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(3)));
  m.build(true);
  run(m, 0);
}
