// C27: equality of functions and constraints.
#include <hpp/constraints/active-set-differentiable-function.hh>
#include <hpp/constraints/affine-function.hh>
#include <hpp/constraints/com-between-feet.hh>
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/constraints/convex-shape-contact.hh>
#include <hpp/constraints/differentiable-function-set.hh>
#include <hpp/constraints/distance-between-points-in-bodies.hh>
#include <hpp/constraints/explicit/implicit-function.hh>
#include <hpp/constraints/explicit/relative-pose.hh>
#include <hpp/constraints/explicit/relative-transformation.hh>
#include <hpp/constraints/function/difference.hh>
#include <hpp/constraints/function/of-parameter-subset.hh>
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/locked-joint.hh>
#include <hpp/constraints/relative-com.hh>
#include <hpp/pinocchio/center-of-mass-computation.hh>
#include "trans.hh"
#include "expl.hh"
using namespace env;
namespace {
// parameters of two objects: all the same but at most one, whose values are independent
struct Par {
  std::vector<double> x; std::vector<int> d; int n = 0, diff = -1; bool second = false, same = true;
  bool other() { return second && n++ == diff; }
  size_t ix = 0, id = 0;
  double num(const std::string& s) {
    if (!second) { ++n; x.push_back(sym::real(s)); return x.back(); }
    if (ix >= x.size()) { ++n; return sym::real(s); }  // beyond the parameters of the first object
    double a = x[ix++]; if (!other()) return a;
    double b = sym::real(s + "'"); if (!(a == b)) same = false; return b;
  }
  int dis(const std::string& s, int k, int dflt = 0) {
    if (!second) { ++n; d.push_back(dflt); return dflt; }
    if (id >= d.size()) { ++n; return dflt; }
    int a = d[id++]; if (!other()) return a;
    int b = sym::choose((s + "'").c_str(), k); if (b != a) same = false; return b;
  }
  vector_t vec(const std::string& s, long k) { vector_t v(k); for (long i = 0; i < k; ++i) v[i] = num(nm(s, i)); return v; }
  vector3_t v3(const std::string& s) { return vec(s, 3); }
  Transform3s frame(const std::string& s) { vector3_t p = v3(s); sym::assume_lt(0.1, p[0]); return toT(Pose{rotQ(quatR(dis(s + "R", 3, 1))), p}); }
  std::string name() { return dis("name", 2) ? "g" : "f"; }
  std::vector<bool> mask(int k) { std::vector<bool> m; for (int i = 0; i < k; ++i) m.push_back(!dis(nm("mask", i), 2, i == 1)); return m; }
};
template <class B> void compare(B build, bool ownPtr = false) {
  Par p; auto a = build(p);
  int n = p.n, k = sym::choose("differing_parameter", n + 1);
  p.second = true; p.n = 0; p.diff = k - 1; auto b = build(p);
  bool e = *a == *b, e2 = *b == *a;
  sym::check(e == p.same, p.same ? "same parameters: equal" : "different parameters: different");
  sym::check(e2 == e, "symmetric");
  sym::check(*a == *a && *b == *b, "reflexive");
}
template <class B> void compareF(B build) { compare([&](Par& p) { return DifferentiableFunctionPtr_t(build(p)); }); }
segments_t segs(Par& p, const std::string& s, int n) { segments_t r; int a = p.dis(s, 2); int k = p.dis(s + "n", 2); r.push_back(segment_t(a, n + k)); return r; }
DifferentiableFunctionPtr_t affine(Par& p, const std::string& n, int rows, int cols, bool zeros = false) { matrix_t J(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { J(i, j) = p.num(nm(nm(n + "J", i), j)); if (!zeros) sym::assume_lt(0.1, J(i, j)); } vector_t b = p.vec(n + "b", rows); return AffineFunction::create(J, b, n); }
typedef std::shared_ptr<DifferentiableFunction> FP;
template <class T> void trans(Bot& R) {
  compareF([&](Par& p) {
    std::string n = p.name(); JointPtr_t j[3] = {R.J(R.A), R.J(R.B1), R.J(R.A2)};
    int j1 = T::IsRelative ? p.dis("joint1", 4, 1) : 0, j2 = p.dis("joint2", 3);
    Transform3s f1 = p.frame("F1"), f2 = p.frame("F2"); std::vector<bool> m(T::DerSize, true); if (!T::OutputR3xSO3) m = p.mask(T::DerSize);
    JointPtr_t J1 = j1 == 3 ? JointPtr_t() : j[j1];
    return T::IsRelative ? T::create(n, R.d, J1, j[j2], f1, f2, m) : T::create(n, R.d, j[j2], f2, f1, m);
  });
}
}  // namespace
SCENARIO(affine_functions) {
  switch (sym::choose("kind", 4)) {
    case 0: compareF([](Par& p) { int k = p.dis("space", 3); auto s = k == 0 ? LiegroupSpace::Rn(4) : k == 1 ? LiegroupSpace::R3() : LiegroupSpace::SO3(); std::string n = p.name(); return Identity::create(s, n); }); break;
    case 1: compareF([](Par& p) { return affine(p, p.name(), 2, 2, true); }); break;
    case 2: compareF([](Par& p) { std::string n = p.name(); int a = p.dis("arguments", 2); vector_t c = p.vec("c", 2); return ConstantFunction::create(c, 2 + a, 2 + a, n); }); break;
    default: compareF([](Par& p) { int k = p.dis("space", 2); vector_t c = p.vec("c", 4); return ConstantFunction::create(LiegroupElement(c, k ? LiegroupSpace::SE2() : LiegroupSpace::SO3()), 2, 2, "f"); });
  }
}
SCENARIO(combined) {
  FP f[3] = {FP(new LF("f0", flat(3).all, LiegroupSpace::Rn(2))), FP(new LF("f1", flat(3).all, LiegroupSpace::Rn(2))), FP(new LF("f2", flat(3).all, LiegroupSpace::SO2()))};
  bool eval = sym::flag("evaluated");
  auto used = [&](FP x, Par& p) { if (eval && (!p.second)) (*x)(vec("at", x->inputSize())); return x; };
  switch (sym::choose("kind", 5)) {
    case 0: compareF([&](Par& p) { int n = 1 + p.dis("size", 3, 1); auto s = DifferentiableFunctionSet::create(p.name()); for (int i = 0; i < n; ++i) s->add(f[p.dis(nm("function", i), 3, i)]); return used(s, p); }); break;
    case 1: compareF([&](Par& p) { int i = p.dis("inner", 3), a = p.dis("args", 2), d = p.dis("ders", 2), b = p.dis("args2", 2), e = p.dis("ders2", 2), x = p.dis("size", 2);
      return used(FP(new function::Difference(f[i], 8 + x, 8, segment_t(a, 3), segment_t(d, 3), segment_t(4 + b, 3), segment_t(4 + e, 3))), p); }); break;
    case 2: compareF([&](Par& p) { int i = p.dis("inner", 3), a = p.dis("args", 2), d = p.dis("ders", 2), x = p.dis("size", 2); return used(function::OfParameterSubset::create(f[i], 5 + x, 5, segment_t(a, 3), segment_t(d, 3)), p); }); break;
    case 3: compareF([&](Par& p) { int i = p.dis("inner", 2), a = p.dis("first", 2), n = p.dis("length", 2); segments_t s{segment_t(a, 1 + n)}; return used(FP(new ActiveSetDifferentiableFunction(f[i], s)), p); }); break;
    default: compareF([&](Par& p) {  // components built again
      auto s = DifferentiableFunctionSet::create("s"); s->add(affine(p, "a", 1, 2)); vector_t c = p.vec("c", 2); s->add(ConstantFunction::create(c, 2, 2, "c")); return used(s, p); });
  }
}
SCENARIO(transformations) {
  Bot R(1);
  switch (sym::choose("kind", 10)) {
    case 0: trans<Position>(R); break;
    case 1: trans<RelativePosition>(R); break;
    case 2: trans<Orientation>(R); break;
    case 3: trans<RelativeOrientation>(R); break;
    case 4: trans<Transformation>(R); break;
    case 5: trans<RelativeTransformation>(R); break;
    case 6: trans<OrientationSO3>(R); break;
    case 7: trans<RelativeOrientationSO3>(R); break;
    case 8: trans<TransformationR3xSO3>(R); break;
    default: trans<RelativeTransformationR3xSO3>(R); break;
  }
}
SCENARIO(points_and_masses) {
  Bot R(1);
  auto c = hpp::pinocchio::CenterOfMassComputation::create(R.d);
  // the joints are asked to the robot again for each function
  auto joint = [&](int k) { return k == 0 ? R.J(R.A) : k == 1 ? R.J(R.B1) : R.J(R.A2); };
  const vector_t goal = R.conf("goal", [](int) { return quatR(1); });
  switch (sym::choose("kind", 4)) {
    case 0: compareF([&](Par& p) { int j = p.dis("joint", 3); vector3_t r = p.v3("r"); auto m = p.mask(3); std::string n = p.name(); return RelativeCom::create(n, R.d, c, joint(j), r, m); }); break;
    case 1: compareF([&](Par& p) { int a = p.dis("left", 3), b = p.dis("right", 3, 1), e = p.dis("ref", 3, 2); vector3_t l = p.v3("l"), r = p.v3("r"), f = p.v3("f"); for (auto* v : {&l, &r, &f}) sym::assume_lt(0.1, (*v)[0]); auto m = p.mask(4); std::string n = p.name(); return ComBetweenFeet::create(n, R.d, c, joint(a), joint(b), l, r, joint(e), f, m); }); break;
    case 2: compareF([&](Par& p) { int a = p.dis("joint1", 3), b = p.dis("joint2", 3, 1); vector3_t l = p.v3("l"), r = p.v3("r"); std::string n = p.name(); return DistanceBetweenPointsInBodies::create(n, R.d, joint(a), joint(b), l, r); }); break;
    default: compareF([&](Par& p) { vector_t q = goal; long k = R.iq(R.A1); q[k] = p.num("g"); vector_t w = p.vec("w", 2), W = vector_t::Ones(R.d->numberDof()); W.segment(3, 2) = w; std::string n = p.name(); return ConfigurationConstraint::create(n, R.d, q, W); });
  }
}
SCENARIO(contacts) {
  Bot R(1);
  auto joint = [&](int k) { return k == 0 ? R.J(R.A) : k == 1 ? R.J(R.B1) : R.J(R.A2); };
  auto shape = [&](Par& p, const std::string& n, double h) { vector3_t o(p.num(n + "x"), p.num(n + "y"), h); Shape_t s{o, vector3_t(o + vector3_t(1, 0, 0)), vector3_t(o + vector3_t(0, 1, 0))}; int j = p.dis(n + "joint", 4, n[0] == 'o' ? 0 : 3); return JointAndShape_t(j == 3 ? JointPtr_t() : joint(j), s); };
  auto shapes = [&](Par& p, const std::string& n, double h) { JointAndShapes_t r; int k = 1 + p.dis(n + "number", 2); for (int i = 0; i < k; ++i) r.push_back(i == 0 || !p.second ? shape(p, nm(n, i), h) : JointAndShape_t(joint(1), Shape_t{vector3_t(0, 0, 0), vector3_t(1, 0, 0), vector3_t(0, 1, 0)})); return r; };
  int kind = sym::choose("kind", 3);
  compareF([&](Par& p) -> DifferentiableFunctionPtr_t {
    auto fl = shapes(p, "floor", 0), ob = shapes(p, "object", 1); std::string n = p.name();
    if (kind == 0) return ConvexShapeContact::create(n, R.d, fl, ob);
    if (kind == 1) return ConvexShapeContactComplement::createPair(n, R.d, fl, ob).second;
    return ConvexShapeContactHold::create(n, R.d, fl, ob);
  });
}
SCENARIO(explicit_functions) {
  Bot R(1); auto joint = [&](int k) { return k == 0 ? R.J(R.A) : k == 1 ? R.J(R.A1) : R.J(R.A2); };
  if (sym::flag("relative_transformation")) compareF([&](Par& p) { int a = p.dis("joint1", 3); int b = p.dis("joint2", 1); (void)b; Transform3s f1 = p.frame("F1"), f2 = p.frame("F2"); std::string n = p.name(); return explicit_::RelativeTransformation::create(n, R.d, joint(a), R.J(R.B), f1, f2); });
  else { auto s = LiegroupSpace::Rn(6); compareF([&](Par& p) { int i = p.dis("in", 2), o = p.dis("out", 2), iv = p.dis("inv", 2), ov = p.dis("outv", 2); auto f = affine(p, "f", 2, 2);
    return explicit_::ImplicitFunction::create(s, f, {segment_t(i, 2)}, {segment_t(3 + o, 2)}, {segment_t(iv, 2)}, {segment_t(3 + ov, 2)}); }); }
}
SCENARIO(constraints) {
  auto comp = [](Par& p, int n) { ComparisonTypes_t c; for (int i = 0; i < n; ++i) c.push_back((const ComparisonType[]){Equality, EqualToZero, Superior, Inferior}[p.dis(nm("comparison", i), 4, i)]); return c; };
  Bot R(1); auto joint = [&](int k) { return k == 0 ? R.J(R.A1) : k == 1 ? R.J(R.B1) : R.J(R.A2); };
  bool copied = sym::flag("copied");
  auto cp = [&](ImplicitPtr_t c, Par& p) { return copied && p.second ? c->copy() : c; };
  switch (sym::choose("kind", 5)) {
    case 0: compare([&](Par& p) { auto f = affine(p, p.name(), 2, 2); auto c = comp(p, 2); auto m = p.mask(2); return cp(Implicit::create(f, c, m), p); }); break;
    case 1: { auto s = LiegroupSpace::Rn(6); compare([&](Par& p) { auto f = affine(p, p.name(), 2, 2); int i = p.dis("in", 2), o = p.dis("out", 2), iv = p.dis("inv", 2), ov = p.dis("outv", 2); auto c = comp(p, 2); auto m = p.mask(2);
      return cp(Explicit::create(s, f, {segment_t(i, 2)}, {segment_t(3 + o, 2)}, {segment_t(iv, 2)}, {segment_t(3 + ov, 2)}, c, m), p); }); break; }
    case 2: compare([&](Par& p) { int j = p.dis("joint", 2), i = p.dis("index", 1); double x = p.num("value"); vector_t v(1); v[0] = x; ImplicitPtr_t c = LockedJoint::create(joint(j), i, v); c->comparisonType({p.dis("comparison", 2) ? EqualToZero : Equality}); return cp(c, p); }); break;
    case 3: R.d->setDimensionExtraConfigSpace(2); compare([&](Par& p) { int i = p.dis("index", 2); vector_t v = p.vec("value", 1); return cp(LockedJoint::create(R.d, i, v), p); }); break;
    default: compare([&](Par& p) { int a = p.dis("joint1", 2); Transform3s f1 = p.frame("F1"), f2 = p.frame("F2"); std::string n = p.name(); auto c = comp(p, 6 - 3); c.resize(6, Equality); auto m = p.mask(3); m.resize(6, true); return cp(explicit_::RelativePose::create(n, R.d, a ? R.J(R.A1) : R.J(R.A), R.J(R.B), f1, f2, c, m), p); });
  }
}
// objects of different kinds
SCENARIO(kinds) {
  auto s = LiegroupSpace::Rn(3); vector_t c = vec("c", 3); matrix_t I = matrix_t::Identity(3, 3);
  std::vector<DifferentiableFunctionPtr_t> f{Identity::create(s, "f"), AffineFunction::create(I, "f"), ConstantFunction::create(c, 3, 3, "f"), DifferentiableFunctionSet::create("f")};
  int a = sym::choose("first", 4), b = sym::choose("second", 4);
  sym::check((*f[a] == *f[b]) == (a == b), "functions of different kinds differ"); sym::check((*f[a] != *f[b]) == (a != b), "different is the contrary of equal");
  std::vector<ImplicitPtr_t> k{Explicit::create(s, AffineFunction::create(matrix_t::Ones(1, 1), "g"), {segment_t(0, 1)}, {segment_t(1, 1)}, {segment_t(0, 1)}, {segment_t(1, 1)}, {Equality}, {true})};
  k.push_back(Implicit::create(k[0]->functionPtr(), {Equality}, {true}));
  a = a % 2; b = b % 2;
  sym::check((*k[a] == *k[b]) == (a == b), "constraints of different kinds differ");
}
