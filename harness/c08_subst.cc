// C08: right-hand sides and satisfaction of a solver with explicit constraints.
#include "subst.hh"
using namespace env;
static ComparisonTypes_t eq(int n) { return ComparisonTypes_t(n, Equality); }
static Mixed sysA(bool cmp) {
  Mixed m(mixed());
  int lv = sym::choose("g.level", 2);
  m.I.push_back(mkI(m.L, "g", 2, {0, 1, 3}, 0, cmp ? ComparisonTypes_t{comp("g.c0"), Equality} : eq(2)));
  m.I.push_back(mkI(m.L, "h", 1, {2, 1}, lv, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, {cmp && sym::flag("f.fixed") ? EqualToZero : Equality}));
  m.E.push_back(mkE(m.L, "e", {1, 0}, {3}, eq(1)));
  m.build(sym::flag("explicit_first"));
  return m;
}
static void readBack(Mixed& m, const std::string& how) {
  vector_t all = m.s->rightHandSide();
  long row = 0;
  for (auto* i : m.stackOrder()) {
    vector_t o(i->ct.size()); sym::check(m.s->getRightHandSide(i->c, o), "known");
    eqV(o, i->rhs, "right-hand side of an implicit constraint " + how);
    for (long k = 0; k < o.size(); ++k) sym::check_eq(all[row + k], i->rhs[k], "stacked right-hand side, implicit part " + how);
    row += o.size();
  }
  for (auto& e : m.E) {
    vector_t o(e.ct.size()); sym::check(m.s->getRightHandSide(e.c, o), "known");
    eqV(o, e.rhs, "right-hand side of an explicit constraint " + how);
    for (long k = 0; k < o.size(); ++k) sym::check_eq(all[row + k], e.rhs[k], "stacked right-hand side, explicit part " + how);
    row += o.size();
  }
  sym::check(row == all.size() && row == m.s->rightHandSideSize(), "size of the stacked right-hand side");
}
SCENARIO(per_constraint) { Mixed m = sysA(false); m.setRhs(); readBack(m, "set per constraint"); }
SCENARIO(stacked) {
  Mixed m = sysA(false);
  vector_t r(5); long row = 0;
  for (auto* i : m.stackOrder()) { r.segment(row, i->rhs.size()) = i->rhs; row += i->rhs.size(); }
  for (auto& e : m.E) { r.segment(row, e.rhs.size()) = e.rhs; row += e.rhs.size(); }
  m.s->rightHandSide(r);
  readBack(m, "set as one vector");
}
SCENARIO(stacked_explicit_only) {
  Mixed m(mixed());
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1))); m.E.push_back(mkE(m.L, "e", {1}, {2, 3}, eq(2)));
  m.build(true);
  vector_t r(3); r[0] = m.E[0].rhs[0]; r[1] = m.E[1].rhs[0]; r[2] = m.E[1].rhs[1];
  m.s->rightHandSide(r);
  readBack(m, "set as one vector, explicit constraints only");
}
static void fromConfigRhs(Mixed& m, const vector_t& q) {
  for (auto& i : m.I) { vector_t v = (*i.f)(q).vector(); for (size_t k = 0; k < i.ct.size(); ++k) i.rhs[k] = i.ct[k] == Equality ? v[k] : 0; }
  for (auto& e : m.E) { e.rhs.setZero(); vector_t g = m.explGap(e, q); for (size_t k = 0; k < e.ct.size(); ++k) e.rhs[k] = e.ct[k] == Equality ? g[k] : 0; }
}
SCENARIO(from_config) {
  Mixed m = sysA(true);
  vector_t q = elem("q", m.L.all);
  if (sym::flag("one_by_one")) {
    for (auto& i : m.I) sym::check(m.s->rightHandSideFromConfig(i.c, q), "accepted");
    for (auto& e : m.E) sym::check(m.s->rightHandSideFromConfig(e.c, q), "accepted");
  } else { vector_t r = m.s->rightHandSideFromConfig(q); eqV(r, m.s->rightHandSide(), "returned right-hand side is the stored one"); }
  fromConfigRhs(m, q);
  readBack(m, "taken from a configuration");
  bool free = true;
  for (auto& i : m.I) for (auto t : i.ct) if (t != Equality) free = false;
  for (auto& e : m.E) for (auto t : e.ct) if (t != Equality) free = false;
  if (free) { m.s->errorThreshold(1e-3); sym::check(m.s->isSatisfied(q), "the configuration satisfies its own right-hand side"); }
}
SCENARIO(explicit_with_several_outputs) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "g", 1, {0, 1}, 0, eq(1)));
  EC e = mkE(m.L, "f", {0}, {2, 3}, cts("f.c", m.L, {2, 3}, true));
  EC d = mkE(m.L, "d", {0}, {1}, eq(1));
  bool swap = sym::flag("swap");
  m.E.push_back(swap ? d : e); m.E.push_back(swap ? e : d);
  m.build(sym::flag("explicit_first"));
  vector_t q = elem("q", m.L.all);
  switch (sym::choose("how", 4)) {
    case 0: m.setRhs(); break;
    case 1: { vector_t r(4); long row = 0; for (auto* i : m.stackOrder()) { r.segment(row, i->rhs.size()) = i->rhs; row += i->rhs.size(); } for (auto& x : m.E) { r.segment(row, x.rhs.size()) = x.rhs; row += x.rhs.size(); } m.s->rightHandSide(r); break; }
    case 2: m.s->rightHandSideFromConfig(q); fromConfigRhs(m, q); break;
    case 3: for (auto& i : m.I) m.s->rightHandSideFromConfig(i.c, q); for (auto& x : m.E) m.s->rightHandSideFromConfig(x.c, q); fromConfigRhs(m, q); break;
  }
  readBack(m, "explicit constraint with several outputs");
}
static void verdict(Mixed& m, bool exact) {
  m.setRhs();
  double thr = sym::real("threshold", 0, 10), t2 = sym::real("t2", 0, 10), ineq = sym::real("inequality_threshold", 0, 10);
  m.s->errorThreshold(thr); m.s->inequalityThreshold(ineq);
  vector_t q = elem("q", m.L.all);
  int mode = sym::choose("mode", 3);
  double t = mode == 1 ? t2 : thr;
  bool got;
  vector_t err(m.s->dimension() + m.s->explicitConstraintSet().errorSize());
  if (mode == 0) got = m.s->isSatisfied(q); else if (mode == 1) got = m.s->isSatisfied(q, t2); else got = m.s->isSatisfied(q, err);
  bool ref = true; long row = 0;
  auto one = [&](const ImplicitPtr_t& c, const vector_t& e) {
    if (mode == 2) for (long k = 0; k < e.size(); ++k) sym::check_eq(err[row + k], e[k], "error vector: implicit part then explicit part");
    row += e.size();
    bool ok = e.squaredNorm() < t * t;
    if (!ok) ref = false;
    if (mode == 0) {
      vector_t x(e.size()); bool found = false;
      bool g = m.s->isConstraintSatisfied(c, q, x, found);
      sym::check(found && g == ok, "verdict for one constraint");
      eqV(x, e, "error of one constraint");
    }
  };
  for (auto* i : m.stackOrder()) one(i->c, m.implRes(*i, q, ineq));
  for (auto& e : m.E) one(e.c, m.explGap(e, q));
  sym::check(got == ref, "satisfied iff every implicit and explicit constraint is");
}
SCENARIO(satisfied) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "g", 1, {0, 1, 3}, 0, {comp("g.c0")}));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.build(sym::flag("explicit_first"));
  verdict(m, true);
}
SCENARIO(satisfied_two_explicit) {
  Mixed m(mixed());
  m.I.push_back(mkI(m.L, "g", 1, {0, 1, 3}, 0, eq(1)));
  m.E.push_back(mkE(m.L, "f", {0}, {1}, eq(1)));
  m.E.push_back(mkE(m.L, "e", {1, 0}, {2}, eq(1)));
  m.build(true);
  verdict(m, true);
}
SCENARIO(explicit_constraint_that_cannot_be_substituted) {
  // two explicit constraints with the same output: the second one is handled implicitly
  Mixed m(mixed());
  EC a = mkE(m.L, "f", {0}, {2}, eq(1)), b = mkE(m.L, "e", {3}, {2}, eq(1));
  m.s->add(a.c); m.s->add(b.c);
  a.rhs = symRhs(a, "f.r"); b.rhs = symRhs(b, "e.r");
  sym::check(m.s->contains(a.c) && m.s->contains(b.c), "both are in the solver");
  sym::check(m.s->rightHandSide(a.c, a.rhs) && m.s->rightHandSide(b.c, b.rhs), "accepted");
  vector_t o(1);
  sym::check(m.s->getRightHandSide(a.c, o), "known"); eqV(o, a.rhs, "right-hand side of the explicit constraint");
  sym::check(m.s->getRightHandSide(b.c, o), "known"); eqV(o, b.rhs, "right-hand side of the constraint handled implicitly");
  double thr = sym::real("threshold", 0, 10); m.s->errorThreshold(thr);
  vector_t q = elem("q", m.L.all);
  vector_t ga = m.explGap(a, q), gb = m.explGap(b, q);
  sym::check(m.s->isSatisfied(q) == (ga.squaredNorm() < thr * thr && gb.squaredNorm() < thr * thr), "satisfied iff both are");
  sym::check(!m.s->add(a.c) && !m.s->add(b.c), "adding again is refused");
}
SCENARIO(unknown_constraint) {
  Mixed m = sysA(false); m.setRhs();
  vector_t before = m.s->rightHandSide(), q = elem("q", m.L.all), r = vec("u", 1);
  EC u = mkE(m.L, "u", {2}, {0}, eq(1)); IC w = mkI(m.L, "w", 1, {0}, 0, eq(1));
  bool found = true; vector_t e(1);
  sym::check(!m.s->rightHandSide(u.c, r) && !m.s->rightHandSide(w.c, r) && !m.s->rightHandSideFromConfig(u.c, q) && !m.s->rightHandSideFromConfig(w.c, q) && !m.s->getRightHandSide(u.c, r) && !m.s->getRightHandSide(w.c, r), "unknown constraint is refused");
  sym::check(!m.s->isConstraintSatisfied(u.c, q, e, found) && !found, "unknown explicit constraint is not found");
  found = true; sym::check(!m.s->isConstraintSatisfied(w.c, q, e, found) && !found, "unknown implicit constraint is not found");
  eqV(m.s->rightHandSide(), before, "refused operations change nothing");
}
