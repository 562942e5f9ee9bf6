// C07: right-hand sides of the hierarchical solver.
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include "env.hh"
using namespace env;
typedef solver::HierarchicalIterative HI;
struct C { ImplicitPtr_t I; DifferentiableFunctionPtr_t f; ComparisonTypes_t c; int prio; };
static std::vector<C> cs;
static std::shared_ptr<HI> mk(int n, bool lie) {
  cs.clear();
  std::shared_ptr<HI> h(new HI(LiegroupSpace::Rn(2)));
  h->errorThreshold(1e-3);
  static const int sz[] = {2, 1, 2};
  int levels = 0;
  for (int i = 0; i < n; ++i) {
    C c; std::string id(1, "fgh"[i]);
    c.prio = sym::choose(id + ".prio", std::min(levels + 1, 3));  // levels are created in order
    levels = std::max(levels, c.prio + 1);
    c.f.reset(new UF(id, 2, sz[i], range(0, 2)));
    for (int k = 0; k < sz[i]; ++k) c.c.push_back(sym::flag(nm(id + ".c", k)) ? EqualToZero : Equality);
    c.I = Implicit::create(c.f, c.c);
    cs.push_back(c);
  }
  for (auto& c : cs) h->add(c.I, c.prio);
  return h;
}
static vector_t rhsFor(const C& c, const std::string& n) { vector_t r(c.c.size()); for (size_t i = 0; i < c.c.size(); ++i) r[i] = c.c[i] == Equality ? sym::real(nm(n, i)) : 0; return r; }
// the residual of every constraint uses its own right-hand side
static void used(HI& h, const std::vector<vector_t>& r) {
  vector_t q = vec("q", 2);
  h.isSatisfied(q);
  long n = 0; for (auto& c : cs) n += c.c.size();
  vector_t err(n); h.residualError(err);
  long row = 0;
  for (int p = 0; p < 3; ++p) for (size_t k = 0; k < cs.size(); ++k) if (cs[k].prio == p) {
    vector_t v = (*cs[k].f)(q).vector();
    for (long i = 0; i < v.size(); ++i) sym::check_eq(err[row + i], v[i] - r[k][i], "residual uses the right-hand side of its constraint");
    row += v.size();
  }
}
static void readBack(HI& h, const std::vector<vector_t>& r, const std::string& how) {
  for (size_t k = 0; k < cs.size(); ++k) {
    vector_t o(cs[k].c.size());
    sym::check(h.getRightHandSide(cs[k].I, o), "constraint known");
    for (long i = 0; i < o.size(); ++i) sym::check_eq(o[i], r[k][i], "right-hand side of a constraint reads back " + how);
  }
  vector_t all = h.rightHandSide();
  long row = 0;
  for (int p = 0; p < 3; ++p) for (size_t k = 0; k < cs.size(); ++k) if (cs[k].prio == p) {
    for (long i = 0; i < r[k].size(); ++i) sym::check_eq(all[row + i], r[k][i], "stacked right-hand side reads back " + how);
    row += r[k].size();
  }
  sym::check(row == all.size() && h.rightHandSideSize() == row, "size of the stacked right-hand side");
}
SCENARIO(per_constraint) {
  auto h = mk(3, false);
  std::vector<vector_t> r;
  for (auto& c : cs) { r.push_back(rhsFor(c, c.f->name() + ".r")); sym::check(h->rightHandSide(c.I, r.back()), "accepted"); }
  readBack(*h, r, "when given per constraint");
  used(*h, r);
}
SCENARIO(stacked) {
  auto h = mk(3, false);
  std::vector<vector_t> r;
  vector_t all(5); long row = 0;
  for (auto& c : cs) r.push_back(rhsFor(c, c.f->name() + ".r"));
  for (int p = 0; p < 3; ++p) for (size_t k = 0; k < 3; ++k) if (cs[k].prio == p) { all.segment(row, r[k].size()) = r[k]; row += r[k].size(); }
  h->rightHandSide(all);
  readBack(*h, r, "when given as one vector");
  used(*h, r);
}
SCENARIO(from_config) {
  auto h = mk(3, false);
  vector_t q = vec("q0", 2);
  vector_t ret = h->rightHandSideFromConfig(q), now = h->rightHandSide();
  for (long i = 0; i < ret.size(); ++i) sym::check_eq(ret[i], now[i], "returned right-hand side is the stored one");
  std::vector<vector_t> r;
  for (auto& c : cs) { vector_t v = (*c.f)(q).vector(); for (long i = 0; i < v.size(); ++i) if (c.c[i] != Equality) v[i] = 0; r.push_back(v); }
  readBack(*h, r, "when taken from a configuration");
  vector_t err(5); h->isSatisfied(q); h->residualError(err);
  long row = 0;
  for (int p = 0; p < 3; ++p) for (size_t k = 0; k < 3; ++k) if (cs[k].prio == p) for (auto& t : cs[k].c) { if (t == Equality) sym::check_eq(err[row], 0, "equality rows are satisfied at the configuration"); ++row; }
}
SCENARIO(from_config_one_constraint) {
  auto h = mk(3, false);
  std::vector<vector_t> r;
  for (auto& c : cs) { r.push_back(rhsFor(c, c.f->name() + ".r")); h->rightHandSide(c.I, r.back()); }
  vector_t q = vec("q0", 2);
  int k = sym::choose("which", 3);
  sym::check(h->rightHandSideFromConfig(cs[k].I, q), "accepted");
  r[k] = (*cs[k].f)(q).vector(); for (long i = 0; i < r[k].size(); ++i) if (cs[k].c[i] != Equality) r[k][i] = 0;
  readBack(*h, r, "when one constraint takes it from a configuration");
}
SCENARIO(rhs_function_at) {
  std::shared_ptr<HI> h(new HI(LiegroupSpace::Rn(2)));
  DifferentiableFunctionPtr_t f(new UF("f", 2, 2, range(0, 2))), g(new UF("g", 2, 1, range(0, 2))), r(new PF("r", 1, 2, range(0, 1), true));
  cs.clear();
  cs.push_back({Implicit::create(f, ComparisonTypes_t(2, Equality)), f, ComparisonTypes_t(2, Equality), 0});
  cs.push_back({Implicit::create(g, ComparisonTypes_t(1, Equality)), g, ComparisonTypes_t(1, Equality), (int)sym::choose("pg", 2)});
  cs[0].I->rightHandSideFunction(r);
  if (cs[1].prio == 0 && sym::flag("g_first")) std::swap(cs[0], cs[1]);
  for (auto& c : cs) h->add(c.I, c.prio);
  std::vector<vector_t> v(2);
  double s = sym::real("s"); vector_t S(1); S[0] = s;
  for (int k = 0; k < 2; ++k) { v[k] = vec(cs[k].f->name() + ".r", cs[k].c.size()); h->rightHandSide(cs[k].I, v[k]); if (cs[k].c.size() == 2) v[k] = (*r)(S).vector(); }
  h->rightHandSideAt(s);
  readBack(*h, v, "when evaluated at a parameter");
}
SCENARIO(unknown_constraint) {
  auto h = mk(1, false);
  DifferentiableFunctionPtr_t o(new UF("other", 2, 2, range(0, 2)));
  ImplicitPtr_t I = Implicit::create(o, ComparisonTypes_t(2, Equality));
  vector_t r = vec("r", 2), before = h->rightHandSide();
  sym::check(!h->rightHandSide(I, r), "setting an unknown constraint is refused");
  sym::check(!h->rightHandSideFromConfig(I, r), "setting an unknown constraint from a configuration is refused");
  sym::check(!h->getRightHandSide(I, r), "reading an unknown constraint is refused");
  vector_t after = h->rightHandSide();
  for (long i = 0; i < before.size(); ++i) sym::check_eq(after[i], before[i], "refused right-hand side changes nothing");
}
