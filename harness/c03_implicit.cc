// C03: right-hand side, comparison types and mask of one implicit constraint.
#include "env.hh"
using namespace env;
static ComparisonTypes_t comps(const std::string& n, int k) { ComparisonTypes_t c; for (int i = 0; i < k; ++i) c.push_back(comp(nm(n, i))); return c; }
static std::vector<bool> maskOf(const std::string& n, int k) { std::vector<bool> m; for (int i = 0; i < k; ++i) m.push_back(sym::flag(nm(n, i))); return m; }
static LiegroupSpacePtr_t spaceOf(long k) {
  switch (k) {
    case 0: return LiegroupSpace::Rn(3);
    case 1: return LiegroupSpace::SO3();
    case 2: return LiegroupSpace::R3xSO3();
    default: return LiegroupSpace::SE3();
  }
}
// function on R^2 with values in any of the spaces: vector parts arbitrary, rotations unit quaternions
struct GF : public UF {
  GF(const std::string& n, const LiegroupSpacePtr_t& s) : UF(n, 2, s) {
    val.resize(s->nq());
    int q = s->nq() == 3 ? 3 : s->nq() - 4;
    for (int i = 0; i < q; ++i) val[i] = sym::real(nm(n + ".v", i));
    if (s->nq() != 3) sym::unit(n + ".q", &val[q], 4);
  }
  vector_t val;
  vector_t at(vectorIn_t) const { return val; }
};
static void rhs(long sp, const ComparisonTypes_t& c) {
  LiegroupSpacePtr_t s = spaceOf(sp);
  DifferentiableFunctionPtr_t f(new GF("f", s));
  ImplicitPtr_t I = Implicit::create(f, c, std::vector<bool>(c.size(), true));
  vector_t q = vec("q", 2);
  LiegroupElement r(s); r.setNeutral();
  LiegroupElementRef rr(r);
  I->rightHandSideFromConfig(q, rr);
  LiegroupElement v = (*f)(q);
  vector_t lv = hpp::pinocchio::log(v), lr = hpp::pinocchio::log(r);
  long np = 0;
  bool all = true;
  for (size_t i = 0; i < c.size(); ++i) {
    if (c[i] == Equality) { sym::check_eq(lr[i], lv[i], "equality component holds the function value"); ++np; }
    else { sym::check_eq(lr[i], 0, "other component is neutral"); all = false; }
  }
  sym::check(I->parameterSize() == np, "number of parameters is the number of equality components");
  if (all) { vector_t d = v - r; for (long i = 0; i < d.size(); ++i) sym::check_eq(d[i], 0, "fully parametric constraint is satisfied at the configuration"); }
  LiegroupElementConstRef cr(r.vector(), f->outputSpace());
  sym::check(I->checkRightHandSide(cr), "right-hand side obtained from a configuration is admissible");
  sym::check(I->rightHandSideSize() == s->nq(), "size of the right-hand side");
}
SCENARIO(rhs_from_config_vector) { rhs(0, comps("c", 3)); }
SCENARIO(rhs_from_config_rotation) { rhs(1, comps("c", 3)); }
SCENARIO(rhs_from_config_motion) {
  static const ComparisonTypes_t all[] = {
    {Equality, Equality, Equality, Equality, Equality, Equality}, {EqualToZero, EqualToZero, EqualToZero, EqualToZero, EqualToZero, EqualToZero},
    {Equality, Equality, EqualToZero, EqualToZero, EqualToZero, Equality}, {EqualToZero, Superior, Equality, Inferior, Equality, Equality},
    {Equality, Equality, Equality, EqualToZero, EqualToZero, EqualToZero}, {Superior, Inferior, EqualToZero, Equality, Equality, Equality}};
  long sp = 2 + sym::choose("space", 2);
  rhs(sp, all[sym::choose("c", 6)]);
}
SCENARIO(admissible_rhs) {
  ComparisonTypes_t c = comps("c", 3);
  DifferentiableFunctionPtr_t f(new UF("f", 2, 3, range(0, 2)));
  ImplicitPtr_t I = Implicit::create(f, c);
  vector_t r = vec("r", 3);
  LiegroupElementConstRef cr(r, f->outputSpace());
  bool got = I->checkRightHandSide(cr), ref = true;
  for (int i = 0; i < 3; ++i) if (c[i] != Equality) ref = ref && sym::same(r[i], 0);
  sym::check(got == ref, "admissible iff zero on every component that is not an equality");
}
SCENARIO(changed_comparison_types) {
  DifferentiableFunctionPtr_t f(new UF("f", 2, 3, range(0, 2)));
  ComparisonTypes_t c0 = comps("c", 2), c1 = comps("d", 2);
  c0.push_back(Equality); c1.push_back(EqualToZero);
  ImplicitPtr_t I = Implicit::create(f, c0);
  ImplicitPtr_t J = I->copy();
  I->comparisonType(c1);
  sym::check(J->comparisonType() == c0, "changing comparison types leaves copies unchanged");
  sym::check(I->comparisonType() == c1, "comparison types read back as set");
  vector_t q = vec("q", 2);
  LiegroupElement r(f->outputSpace()), s(f->outputSpace()); r.setNeutral(); s.setNeutral();
  LiegroupElementRef rr(r), ss(s);
  I->rightHandSideFromConfig(q, rr);
  J->rightHandSideFromConfig(q, ss);
  vector_t v = (*f)(q).vector();
  long np = 0;
  for (int i = 0; i < 3; ++i) {
    sym::check_eq(r.vector()[i], c1[i] == Equality ? v[i] : 0, "right-hand side follows the new comparison types");
    sym::check_eq(s.vector()[i], c0[i] == Equality ? v[i] : 0, "right-hand side of the copy follows its own comparison types");
    np += c1[i] == Equality;
  }
  sym::check(I->parameterSize() == np, "number of parameters follows the new comparison types");
}
SCENARIO(masked_rows) {
  std::vector<bool> m = maskOf("m", 4);
  DifferentiableFunctionPtr_t f(new UF("f", 2, 4, range(0, 2)));
  ImplicitPtr_t I = Implicit::create(f, ComparisonTypes_t(4, EqualToZero), m);
  vector_t e = vec("e", 4), e0 = e;
  I->setInactiveRowsToZero(e);
  bool all = true;
  for (int i = 0; i < 4; ++i) { sym::check_eq(e[i], m[i] ? e0[i] : 0, "exactly the masked rows are zeroed"); all = all && m[i]; }
  sym::check(I->checkAllRowsActive() == all, "all rows active iff nothing is masked");
  std::vector<int> on; for (auto& s : I->activeRows()) for (long k = 0; k < s.second; ++k) on.push_back(s.first + k);
  std::vector<int> ref; for (int i = 0; i < 4; ++i) if (m[i]) ref.push_back(i);
  sym::check(on == ref, "active rows are the unmasked ones");
}
// right-hand side as a function of a real parameter
SCENARIO(rhs_function) {
  DifferentiableFunctionPtr_t f(new UF("f", 2, 2, range(0, 2)));
  ComparisonTypes_t c; for (int i = 0; i < 2; ++i) c.push_back(sym::flag(nm("c", i)) ? Equality : EqualToZero);
  int in = 1 + sym::choose("in", 2), out = 1 + sym::choose("out", 2);
  ImplicitPtr_t I = Implicit::create(f, c);
  DifferentiableFunctionPtr_t r(new PF("r", in, out, range(0, in)));
  bool ok = in == 1 && out == 2 && c[0] == Equality && c[1] == Equality, thrown = false;
  try { I->rightHandSideFunction(r); } catch (const std::invalid_argument&) { thrown = true; }
  sym::check(thrown == !ok, "right-hand side function accepted iff it maps R to the output space and all components are equalities");
  if (!thrown) {
    double s = sym::real("s");
    vector_t v = I->rightHandSideAt(s), S(1); S[0] = s;
    vector_t e = (*r)(S).vector();
    for (int i = 0; i < 2; ++i) sym::check_eq(v[i], e[i], "right-hand side at a parameter value");
    ImplicitPtr_t J = I->copy();
    vector_t w = J->rightHandSideAt(s);
    for (int i = 0; i < 2; ++i) sym::check_eq(w[i], e[i], "a copy keeps the right-hand side function");
  }
}
