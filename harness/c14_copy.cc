// C14: copies, extractions and merges of solvers.
#include "subst.hh"
using namespace env;
typedef solver::HierarchicalIterative HI;
static ComparisonTypes_t eq(int n) { return ComparisonTypes_t(n, Equality); }
struct Snap { vector_t rhs, err; bool ok; };
struct Sys { Mixed m; vector_t q; double thr, ineq; bool mixedSolver; };
static Sys mk(bool expl) {
  Sys s{Mixed(mixed())};
  s.mixedSolver = expl;
  Mixed& m = s.m;
  int lv = sym::choose("h.level", 2);
  m.I.push_back(mkI(m.L, "g", 2, {0, 1, 3}, 0, {Equality, expl ? EqualToZero : Superior}));
  m.I.push_back(mkI(m.L, "h", 1, {2, 1}, lv, eq(1)));
  if (expl) { m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1))); m.E.push_back(mkE(m.L, "e", {1, 0}, {3}, eq(1))); }
  m.build(expl && sym::flag("explicit_first"));
  m.setRhs();
  s.thr = sym::real("threshold", 0.01, 10); s.ineq = sym::real("inequality_threshold", 0, 10);
  m.s->errorThreshold(s.thr); m.s->inequalityThreshold(s.ineq);
  m.s->maxIterations(20);
  m.s->lastIsOptional(sym::flag("last_is_optional")); m.s->solveLevelByLevel(sym::flag("level_by_level"));
  s.q = elem("q", m.L.all);
  return s;
}
static Snap snap(BS& b, const vector_t& q) {
  Snap s; s.rhs = b.rightHandSide();
  s.ok = b.isSatisfied(q);
  s.err.resize(b.dimension()); b.residualError(s.err);
  return s;
}
static void same(const Snap& a, const Snap& b, const std::string& l) {
  eqV(a.rhs, b.rhs, "right-hand side " + l);
  eqV(a.err, b.err, "residual " + l);
  sym::check(a.ok == b.ok, "verdict " + l);
}
static void perRhs(Mixed& m, BS& b, const std::string& l) {
  for (auto& i : m.I) { vector_t o(i.ct.size()); sym::check(b.getRightHandSide(i.c, o), "constraint known " + l); eqV(o, i.rhs, "right-hand side of an implicit constraint " + l); }
  for (auto& e : m.E) { vector_t o(e.ct.size()); sym::check(b.getRightHandSide(e.c, o), "constraint known " + l); eqV(o, e.rhs, "right-hand side of an explicit constraint " + l); }
}
static void copyCase(bool expl) {
  Sys s = mk(expl); Mixed& m = s.m;
  BS a(*m.s), &o = *m.s;
  sym::check(a.constraints().size() == o.constraints().size() && a.dimension() == o.dimension() && a.reducedDimension() == o.reducedDimension() && a.rightHandSideSize() == o.rightHandSideSize() && a.maxIterations() == o.maxIterations() && a.numberStacks() == o.numberStacks(), "sizes of the copy");
  sym::check(a.lastIsOptional() == o.lastIsOptional() && a.solveLevelByLevel() == o.solveLevelByLevel(), "modes of the copy");
  sym::check_eq(a.errorThreshold(), o.errorThreshold(), "threshold of the copy");
  for (size_t i = 0; i < a.constraints().size(); ++i) sym::check(a.constraints()[i] != o.constraints()[i] && *a.constraints()[i] == *o.constraints()[i], "constraints of the copy are equal, distinct objects");
  same(snap(a, s.q), snap(o, s.q), "of the copy");
  perRhs(m, a, "of the copy");
}
SCENARIO(copy_is_equivalent_hierarchical) { copyCase(false); }
SCENARIO(copy_is_equivalent_mixed) { copyCase(true); }
// an operation on one side does not change the other
static void independent(bool expl) {
  Sys s = mk(expl); Mixed& m = s.m;
  BS a(*m.s);
  bool onCopy = sym::flag("change_the_copy");
  BS &x = onCopy ? a : *m.s, &y = onCopy ? *m.s : a;
  Snap before = snap(y, s.q);
  int op = sym::choose("operation", 9);
  size_t n = x.constraints().size();
  switch (op) {
    case 0: x.rightHandSide(m.I[0].c, fromV({sym::real("n0"), 0})); break;
    case 1: { vector_t r = x.rightHandSide(); for (long i = 0; i < r.size(); ++i) if (i != 1) r[i] = sym::real(nm("n", i)); x.rightHandSide(r); break; }
    case 2: x.rightHandSideFromConfig(elem("p", m.L.all)); break;
    case 3: x.errorThreshold(sym::real("n_thr", 0.01, 10)); x.inequalityThreshold(sym::real("n_ineq", 0, 10)); break;
    case 4: x.add(mkI(m.L, "k", 2, {0, 2}, 0, eq(2)).c, 0); break;
    case 5: x.add(mkI(m.L, "k", 1, {0, 2}, 1, eq(1)).c, m.I[1].prio + 1); break;
    case 6: x.lastIsOptional(!y.lastIsOptional()); break;
    case 7: if (expl) x.add(mkE(m.L, "k", {1}, {2}, eq(1)).c, 0); else x.add(mkE(m.L, "k", {0}, {2}, eq(1)).c, 0); break;
    case 8: if (expl) x.rightHandSide(m.E[1].c, fromV({sym::real("n0")})); else x.merge(BS(m.L.all)); break;
  }
  same(snap(y, s.q), before, "after an operation on the other solver");
  sym::check(y.constraints().size() == n, "number of constraints after an operation on the other solver");
  vector_t r(2), r1 = m.I[0].rhs; sym::check(y.getRightHandSide(m.I[0].c, r), "known"); eqV(r, r1, "right-hand side of one constraint after an operation on the other solver");
  if (op == 4) {  // and the other solver still works when it is extended too
    vector_t w = y.rightHandSideFromConfig(s.q); sym::check(w.size() == before.rhs.size(), "size of the right-hand side");
    y.add(mkI(m.L, "k2", 1, {0}, 0, eq(1)).c, 0);
    w = y.rightHandSideFromConfig(s.q); sym::check(w.size() == before.rhs.size() + 1, "size of the right-hand side after adding");
    vector_t o(2); y.getRightHandSide(m.I[0].c, o); vector_t v = (*m.I[0].f)(s.q).vector(); sym::check_eq(o[0], v[0], "right-hand side from a configuration after adding");
  }
}
SCENARIO(independent_hierarchical) { independent(false); }
SCENARIO(independent_mixed) { independent(true); }
// right-hand side functions restricted to an interval
static void extractCase(bool expl) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "g", 2, {0, 1, 3}, 0, eq(2)));
  m.I.push_back(mkI(m.L, "h", 1, {2, 1}, sym::choose("h.level", 2), eq(1)));
  if (expl) m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(expl && sym::flag("explicit_first"));
  m.setRhs();
  m.s->errorThreshold(0.01);
  DifferentiableFunctionPtr_t r(new PF("r", 1, 2, range(0, 1), true)), rf(new PF("rf", 1, 1, range(0, 1), true));
  m.I[0].c->rightHandSideFunction(r);
  if (expl) m.E[0].c->rightHandSideFunction(rf);
  bool rev = sym::flag("reversed");
  double t1 = sym::real("t1", 0, 10), t2 = sym::real("t2", 0, 10), t = sym::real("t", 0, 10);
  if (rev) sym::assume(t1 > t2); else sym::assume(t1 <= t2);
  vector_t before = m.s->rightHandSide();
  interval_t iv(t1, t2);
  std::shared_ptr<BS> y;
  std::shared_ptr<HI> h;
  if (expl) y.reset(new BS(m.s->extract(iv))); else h.reset(new HI(m.s->HI::extract(iv)));
  HI& x = expl ? *y : *h;
  eqV(m.s->rightHandSide(), before, "right-hand side of the source after an extraction");
  eqV(expl ? y->rightHandSide() : h->rightHandSide(), before, "right-hand side of the extracted solver");
  sym::check(m.I[0].c->rightHandSideFunction() == r, "function of the source after an extraction");
  x.rightHandSideAt(t);
  vector_t T(1), at, o(2), of(1); T[0] = rev ? t1 - t : t1 + t;
  sym::check(x.getRightHandSide(m.I[0].c, o), "known"); at = (*r)(T).vector();
  eqV(o, at, "right-hand side of the extracted solver at a parameter");
  if (expl) { sym::check(x.getRightHandSide(m.E[0].c, of), "known"); eqV(of, (*rf)(T).vector(), "explicit right-hand side of the extracted solver at a parameter"); }
  eqV(m.s->rightHandSide(), before, "right-hand side of the source after using the extracted solver");
  m.s->rightHandSideAt(t); T[0] = t;
  m.s->getRightHandSide(m.I[0].c, o); eqV(o, (*r)(T).vector(), "right-hand side of the source at a parameter after an extraction");
  if (expl) { m.s->getRightHandSide(m.E[0].c, of); eqV(of, (*rf)(T).vector(), "explicit right-hand side of the source at a parameter after an extraction"); }
  vector_t oh(1); m.s->getRightHandSide(m.I[1].c, oh); eqV(oh, m.I[1].rhs, "right-hand side without function");
}
SCENARIO(extract_hierarchical) { extractCase(false); }
SCENARIO(extract_mixed) { extractCase(true); }
SCENARIO(extracted_function) {
  DifferentiableFunctionPtr_t r(new PF("r", 1, 2, range(0, 1), true));
  bool rev = sym::flag("reversed");
  double t1 = sym::real("t1", -10, 10), t2 = sym::real("t2", -10, 10), t = sym::real("t", 0, 10);
  if (rev) sym::assume(t1 > t2); else sym::assume(t1 <= t2);
  DifferentiableFunctionPtr_t e = DifferentiableFunction::extract(r, interval_t(t1, t2));
  vector_t T(1), S(1); T[0] = t; S[0] = rev ? t1 - t : t1 + t;
  eqV((*e)(T).vector(), (*r)(S).vector(), "value of a function restricted to an interval");
  matrix_t J(2, 1), K(2, 1); e->jacobian(J, T); r->jacobian(K, S); if (rev) K *= -1;
  eqM(J, K, "Jacobian of a function restricted to an interval");
}
// merging
SCENARIO(merge) {
  Mixed m(mixed()), n(m.L);
  m.I.push_back(mkI(m.L, "g", 2, {0, 1, 3}, 0, eq(2)));
  int lv = sym::choose("h.level", 2);
  n.I.push_back(mkI(m.L, "k", 1, {0}, 0, eq(1)));
  n.I.push_back(mkI(m.L, "h", 1, {2, 1}, lv, {comp("h.c")}));
  bool sharedG = sym::flag("shared_constraint"), expl = sym::flag("explicit");
  if (expl) n.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(false); n.build(sym::flag("explicit_first"));
  if (sharedG) n.s->add(m.I[0].c, 0);
  n.setRhs();
  vector_t q = elem("q", m.L.all);
  double thr = sym::real("threshold", 0.01, 10); m.s->errorThreshold(thr); n.s->errorThreshold(thr); m.s->inequalityThreshold(0); n.s->inequalityThreshold(0);
  Snap before = snap(*n.s, q); size_t nc = n.s->constraints().size();
  m.s->merge(*n.s);
  same(snap(*n.s, q), before, "of the source after a merge");
  sym::check(n.s->constraints().size() == nc, "constraints of the source after a merge");
  sym::check(m.s->constraints().size() == (expl ? 4u : 3u), "union of the constraints");
  sym::check(m.s->numberStacks() == (size_t)lv + 1, "priority levels of the union");
  sym::check(m.s->explicitConstraintSet().errorSize() == (expl ? 1 : 0), "explicit constraints stay explicit");
  m.setRhs();
  for (auto& i : n.I) sym::check(m.s->rightHandSide(i.c, i.rhs), "merged constraint known");
  for (auto& i : n.E) sym::check(m.s->rightHandSide(i.c, i.rhs), "merged constraint known");
  auto ok = [&](const vector_t& e) { return e.squaredNorm() < thr * thr; };
  bool ref = ok(m.implRes(m.I[0], q, 0)) && ok(n.implRes(n.I[0], q, 0)) && ok(n.implRes(n.I[1], q, 0));
  for (auto& e : n.E) ref = ref && ok(n.explGap(e, q));
  sym::check(m.s->isSatisfied(q) == ref, "the merged solver accepts what both accept");
  m.s->lastIsOptional(true);
  if (lv == 1) {
    bool req = ok(m.implRes(m.I[0], q, 0)) && ok(n.implRes(n.I[0], q, 0));
    for (auto& e : n.E) req = req && ok(n.explGap(e, q));
    sym::check(m.s->isSatisfied(q) == req, "priorities of the merged constraints are kept");
  }
}
