// C10: solving, satisfaction and right-hand sides of explicit constraint sets.
#include <algorithm>
#include "expl.hh"
using namespace env;
struct Sys { Layout L; std::vector<EC> e; std::shared_ptr<ExplicitConstraintSet> s; std::vector<vector_t> rhs; };
static Sys mk(bool order, bool vary, const std::vector<Str>& strs) {
  Sys y{mixed()};
  const Str& st = strs[sym::choose("structure", strs.size())];
  for (size_t i = 0; i < st.f.size(); ++i) {
    std::string id(1, "fgh"[i]);
    y.e.push_back(mkE(y.L, id, st.f[i].first, st.f[i].second, cts(id + ".c", y.L, st.f[i].second, vary)));
  }
  if (order) {
    int n = y.e.size(), np = n == 3 ? 6 : n == 2 ? 2 : 1;
    std::vector<int> p = range(0, n);
    for (int k = sym::choose("order", np); k > 0; --k) std::next_permutation(p.begin(), p.end());
    std::vector<EC> t; for (int i : p) t.push_back(y.e[i]); y.e = t;
  }
  y.s.reset(new ExplicitConstraintSet(y.L.all));
  for (size_t i = 0; i < y.e.size(); ++i) sym::check(y.s->add(y.e[i].c) == (long)i, "accepted");
  return y;
}
static void setRhs(Sys& y) {
  for (auto& c : y.e) { y.rhs.push_back(symRhs(c, c.f->id + ".r")); sym::check(y.s->rightHandSide(c.c, y.rhs.back()), "right-hand side accepted"); }
}
// q_out "minus" f(q_in), in the tangent space
static vector_t gap(const Sys& y, const EC& c, const vector_t& q) {
  LiegroupSpacePtr_t o = y.L.space(c.out);
  LiegroupElement v = (*c.f)(y.L.get(q, c.in));
  return LiegroupElement(y.L.get(q, c.out), o) - v;
}
static void same(const vector_t& a, const vector_t& b, const std::string& l) { eqV(a, b, l); }
static void solved(Sys& y) {
  vector_t q0 = elem("q", y.L.all), q = q0;
  sym::check(y.s->solve(q), "solve succeeds");
  std::vector<bool> out(y.L.sp.size(), false);
  for (auto& c : y.e) for (int b : c.out) out[b] = true;
  for (int b = 0; b < (int)out.size(); ++b) if (!out[b]) same(y.L.get(q, {b}), y.L.get(q0, {b}), "variable that is not an output is unchanged");
  for (size_t k = 0; k < y.e.size(); ++k) {
    LiegroupElement v = (*y.e[k].f)(y.L.get(q, y.e[k].in));
    v += y.rhs[k];
    same(y.L.get(q, y.e[k].out), v.vector(), "output is the function of the final inputs plus right-hand side");
  }
  vector_t err(y.s->errorSize());
  y.s->errorThreshold(1e-3);
  sym::check(y.s->isSatisfied(q, err), "solved configuration is satisfied");
  for (long i = 0; i < err.size(); ++i) sym::check_eq(err[i], 0, "error of the solved configuration");
  vector_t q1 = q;
  y.s->solve(q1);
  same(q1, q, "solving again changes nothing");
}
SCENARIO(solve_every_order) { Sys y = mk(true, false, structures()); setRhs(y); solved(y); }
SCENARIO(solve_every_comparison) { Sys y = mk(false, true, structures()); setRhs(y); solved(y); }
SCENARIO(solve_neutral_rhs) { Sys y = mk(false, false, structures()); for (auto& c : y.e) y.rhs.push_back(vector_t::Zero(c.ct.size())); solved(y); }
SCENARIO(satisfied_iff_every_error_is_small) {
  std::vector<Str> s = {{{{{0}, {1}}, {{1, 0}, {2}}}}, {{{{3}, {1, 2}}}}};
  Sys y = mk(true, false, s); setRhs(y);
  double thr = sym::real("threshold", 0, 10), t2 = sym::real("t2", 0, 10);
  y.s->errorThreshold(thr);
  vector_t q = elem("q", y.L.all), err(y.s->errorSize());
  bool ref = true, ref2 = true; long row = 0;
  bool given = sym::flag("given");
  bool got = given ? y.s->isSatisfied(q, err, t2) : y.s->isSatisfied(q, err);
  for (size_t k = 0; k < y.e.size(); ++k) {
    vector_t e = gap(y, y.e[k], q); e -= y.rhs[k];
    for (long i = 0; i < e.size(); ++i) sym::check_eq(err[row + i], e[i], "error is value minus right-hand side");
    row += e.size();
    double t = given ? t2 : thr;
    bool ok = e.squaredNorm() < t * t;
    if (!ok) ref = false;
    if (!given) {
      vector_t e1(e.size()); bool found = false;
      bool g1 = y.s->isConstraintSatisfied(y.e[k].c, q, e1, found);
      sym::check(found && g1 == ok, "verdict for one constraint");
      same(e1, e, "error of one constraint");
    }
  }
  sym::check(got == ref, "satisfied iff every error is below the threshold");
  sym::check((given ? y.s->isSatisfied(q, t2) : y.s->isSatisfied(q)) == ref, "satisfied, without asking for the error");
}
SCENARIO(rhs_from_configuration) {
  Sys y = mk(true, false, structures());
  vector_t q = elem("q", y.L.all);
  if (sym::flag("one_by_one")) for (auto& c : y.e) sym::check(y.s->rightHandSideFromInput(c.c, q), "accepted");
  else { vector_t r = y.s->rightHandSideFromInput(q), now = y.s->rightHandSide(); same(r, now, "returned right-hand side is the stored one"); }
  long row = 0; vector_t all = y.s->rightHandSide();
  for (auto& c : y.e) {
    vector_t g = gap(y, c, q), o(g.size());
    sym::check(y.s->getRightHandSide(c.c, o), "constraint known");
    same(o, g, "right-hand side of a configuration");
    for (long i = 0; i < g.size(); ++i) sym::check_eq(all[row + i], g[i], "stacked right-hand side");
    row += g.size();
  }
  sym::check(y.s->isSatisfied(q, 1e-3), "the configuration satisfies its own right-hand side");
  vector_t q1 = q; y.s->solve(q1);
  LiegroupElement a(q, y.L.all), b(q1, y.L.all);
  for (size_t k = 0; k < y.L.sp.size(); ++k) if (y.L.sp[k]->nq() == y.L.sp[k]->nv()) same(y.L.get(q1, {(int)k}), y.L.get(q, {(int)k}), "solving leaves the configuration unchanged");
}
SCENARIO(rhs_from_configuration_keeps_fixed_components) {
  Sys y = mk(false, true, {structures()[3], structures()[0]});
  vector_t q = elem("q", y.L.all);
  y.s->rightHandSideFromInput(q);
  for (auto& c : y.e) {
    vector_t g = gap(y, c, q), o(g.size()); y.s->getRightHandSide(c.c, o);
    for (long i = 0; i < g.size(); ++i) sym::check_eq(o[i], c.ct[i] == Equality ? g[i] : 0, "only equality components take the value");
  }
}
SCENARIO(rhs_round_trip) {
  Sys y = mk(true, false, structures());
  long n = y.s->rightHandSideSize(), row = 0;
  vector_t r = vec("r", n);
  bool stacked = sym::flag("stacked");
  if (stacked) y.s->rightHandSide(r);
  for (auto& c : y.e) {
    long m = c.ct.size();
    if (!stacked) sym::check(y.s->rightHandSide(c.c, r.segment(row, m)), "accepted");
    row += m;
  }
  same(y.s->rightHandSide(), r, "stacked right-hand side reads back");
  row = 0;
  for (auto& c : y.e) { vector_t o(c.ct.size()); sym::check(y.s->getRightHandSide(c.c, o), "known"); same(o, r.segment(row, o.size()), "right-hand side of a constraint reads back"); row += o.size(); }
  // a constraint that is not in the set
  EC u = mkE(y.L, "u", {0}, {3}, {Equality}); vector_t o = vec("o", 1);
  sym::check(!y.s->rightHandSide(u.c, o) && !y.s->getRightHandSide(u.c, o) && !y.s->rightHandSideFromInput(u.c, elem("q", y.L.all)), "unknown constraint is refused");
  same(y.s->rightHandSide(), r, "refused operation changes nothing");
}
SCENARIO(copy_is_independent) {
  Sys y = mk(false, false, structures()); setRhs(y);
  vector_t before = y.s->rightHandSide();
  ExplicitConstraintSet c(*y.s);
  same(c.rightHandSide(), before, "copy has the same right-hand side");
  vector_t r2 = vec("n", before.size());
  bool which = sym::flag("change_copy");
  (which ? c : *y.s).rightHandSide(r2);
  same((which ? *y.s : c).rightHandSide(), before, "changing one does not change the other");
  vector_t q = elem("q", y.L.all), a = q, b = q;
  y.s->solve(a); c.solve(b);
  for (size_t k = 0; k < y.e.size(); ++k) {
    long row = 0; for (size_t j = 0; j < k; ++j) row += y.e[j].ct.size();
    vector_t r0 = before.segment(row, y.e[k].ct.size()), r1 = r2.segment(row, y.e[k].ct.size());
    LiegroupElement v = (*y.e[k].f)(y.L.get(a, y.e[k].in)); v += which ? r0 : r1;
    same(y.L.get(a, y.e[k].out), v.vector(), "original uses its own right-hand side");
    LiegroupElement w = (*y.e[k].f)(y.L.get(b, y.e[k].in)); w += which ? r1 : r0;
    same(y.L.get(b, y.e[k].out), w.vector(), "copy uses its own right-hand side");
  }
}
