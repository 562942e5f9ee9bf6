// C16: relative pose, explicit and implicit forms.
#include "relpose.hh"
#include <hpp/constraints/explicit.hh>
#include <hpp/constraints/explicit-constraint-set.hh>
#define private public
#include <hpp/constraints/explicit/relative-pose.hh>
#undef private
using namespace env;
typedef explicit_::RelativePose RP;
namespace {
vector_t get(const vector_t& q, const segments_t& s) { vector_t r(Eigen::BlockIndex::cardinal(s)); long k = 0; for (auto& x : s) for (long i = 0; i < x.second; ++i) r[k++] = q[x.first + i]; return r; }
void put(vector_t& q, const segments_t& s, const vector_t& r) { long k = 0; for (auto& x : s) for (long i = 0; i < x.second; ++i) q[x.first + i] = r[k++]; }
void eqPose(const Pose& a, const Pose& b, const char* l) { for (int i = 0; i < 3; ++i) { sym::check_eq(a.p[i], b.p[i], l); for (int j = 0; j < 3; ++j) sym::check_eq(a.R(i, j), b.R(i, j), l); } }
Pose poseOf(const vector_t& x) { return Pose{rotQ(quat_t(x.segment<4>(3))), vector3_t(x.segment<3>(0))}; }
LiegroupElement elemOf(const vector3_t& p, const quat_t& u, const LiegroupSpacePtr_t& s) { vector_t x(7); for (int i = 0; i < 3; ++i) x[i] = p[i]; for (int i = 0; i < 4; ++i) x[3 + i] = u[i]; return LiegroupElement(x, s); }
struct Case {
  Rel R; int f1, f2; explicit_::RelativePosePtr_t c; vector_t q; quat_t F2q;
  // sy: which of the rotation of joint 2 and of the right hand side are arbitrary
  int sy;
  Case(int frames, int sy_) : R(1, sym::choose("joints", 8)), sy(sy_) {
    if (sy == 3) sy = 1 + sym::choose("arbitrary", 2);
    if (frames == 1 && R.kind == 4 && !sym::thorough()) sy = 2;  // slow otherwise
    int k = frames == 1 || sym::choose("frames", 2) ? 3 : R.kind % 3; f1 = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3; f2 = k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 1 : 3;
    R.F1 = frame("F1", f1, 2); R.F2 = frame("F2", f2, 4); F2q = quatR(f2 & 1 ? 4 : 0);
    if (f1 & 2) sym::assume_lt(0.1, R.F1.p[0]);
    if (f2 & 2) sym::assume_lt(0.1, R.F2.p[0]);
    c = RP::create("c", R.d, R.J(R.j1), R.J(R.j2), toT(R.F1), toT(R.F2), ComparisonTypes_t(6, Equality));
    quat_t u = sy & 1 ? symQ("u") : quatR(1);
    q = confOut(R, "q", u, quatR(f1 & 1 ? 2 : 0), F2q);
    auto one = [](int) { return quatR(0); };
    if (R.kind == 0 || R.kind == 3 || R.kind == 5)  // joint 1 and the parent of joint 2 do not rotate relatively
      u = mulQ(mulQ(conjQ(mulQ(rotTo(R, R.parent(R.j2), 0, one), placeQ(R, R.j2))), rotTo(R, R.j1, 0, one)), mulQ(quatR(f1 & 1 ? 2 : 0), conjQ(F2q)));
    quat_t w = mulQ(u, mulQ(mulQ(F2q, rot()), conjQ(F2q)));  // the relative rotation of the frames at q is rot()
    for (int i = 0; i < 4; ++i) q[R.iq(R.j2) + 3 + i] = w[i];
  }
  quat_t rot() const { return sy & 2 ? symQ("r") : quatR(3); }
  // right hand side, a pose of frame 2 in frame 1 such that its conjugate by frame 2 has an arbitrary rotation
  LiegroupElement rhs() { return elemOf(v3("rt"), mulQ(mulQ(conjQ(F2q), rot()), F2q), c->function().outputSpace()); }
  vector_t set(const vector_t& out) { vector_t x = q; put(x, c->outputConf(), out); R.at(x); return x; }
  Pose rel() const { return invP(R.pose(R.j1) * R.F1) * (R.pose(R.j2) * R.F2); }
};
}  // namespace
SCENARIO(output_value) {
  Case c(2, 3); LiegroupElement rhs = c.sy == 1 && sym::flag("identity") ? c.c->function().outputSpace()->neutral() : c.rhs();
  LiegroupElement out(c.c->explicitFunction()->outputSpace());
  c.c->outputValue(out, get(c.q, c.c->inputConf()), rhs);
  c.set(out.vector());
  eqPose(c.rel(), poseOf(rhs.vector()), "pose of frame 2 in frame 1 is the right hand side");
}
SCENARIO(implicit_form) {
  Case c(4, 2); LiegroupElement rhs = c.rhs();
  LiegroupElement out(c.c->explicitFunction()->outputSpace());
  c.c->outputValue(out, get(c.q, c.c->inputConf()), rhs);
  vector_t x = c.set(out.vector());
  LiegroupElement y = c.c->function()(x);
  eqPose(poseOf(y.vector()), poseOf(rhs.vector()), "implicit form satisfied");
}
SCENARIO(conversion) {
  Case c(4, 2); LiegroupElement rhs = c.rhs(); vector_t e = mat("dirty", 6, 1);
  c.c->implicitToExplicitRhs(rhs, e);
  LiegroupElement back(c.c->function().outputSpace()); c.c->explicitToImplicitRhs(e, back);
  eqPose(poseOf(back.vector()), poseOf(rhs.vector()), "right hand side converted back and forth");
}
SCENARIO(jacobian) {
  Case c(1, 3); LiegroupElement rhs = c.sy == 1 && sym::flag("identity") ? c.c->function().outputSpace()->neutral() : c.rhs();
  segments_t in = c.c->inputConf(), vin = c.c->inputVelocity(); long nv = Eigen::BlockIndex::cardinal(vin);
  LiegroupElement f = (*c.c->explicitFunction())(get(c.q, in));
  matrix_t J = mat("dirty", 6, nv); c.c->jacobianOutputValue(get(c.q, in), f, rhs, J);
  vector_t v = vec("v", nv), full = vector_t::Zero(c.R.d->numberDof()); put(full, vin, v);
  LiegroupElement out(c.c->explicitFunction()->outputSpace()); c.c->outputValue(out, get(c.q, in), rhs); vector_t y = out.vector();
  std::vector<double> d = sym::derivative([&](double t) { LiegroupElement o(c.c->explicitFunction()->outputSpace()); c.c->outputValue(o, get(c.R.move(c.q, full, t), in), rhs); return toV(o.vector()); });
  quat_t u(y.segment<4>(3)), w = mulQ(conjQ(u), quat_t(d[3], d[4], d[5], d[6]));
  vector3_t p = rotQ(u).transpose() * vector3_t(d[0], d[1], d[2]);
  for (int i = 0; i < 6; ++i) { double s = 0; for (long j = 0; j < nv; ++j) s = s + J(i, j) * v[j]; sym::check_eq(s, i < 3 ? p[i] : 2 * w[i - 3], "derivative of the output value", 1e-3); }
}
// through a set of explicit constraints: the relative pose of a configuration is kept
SCENARIO(keep_pose) {
  Case c(1, 3); ExplicitConstraintSet e(c.R.d->configSpace());
  int k = sym::choose("copies", 3);
  ExplicitPtr_t x = k ? HPP_DYNAMIC_PTR_CAST(Explicit, c.c->copy()) : ExplicitPtr_t(c.c);
ExplicitConstraintSet other(c.R.d->configSpace());
  if (k == 2) { other.add(c.c); other.rightHandSideFromInput(c.R.conf("o", quatR(1), quatR(2), quatR(3))); }  // the original goes on in another set
  sym::check(e.add(x) >= 0, "constraint accepted");
  vector_t q2 = c.R.conf("p", quatR(3), quatR(1), quatR(2));
  c.R.at(c.q); Pose keep = c.rel();
  bool set = sym::flag("rhs_set");
  if (set) e.rightHandSideFromInput(c.q);
  vector_t y = q2; sym::check(e.solve(y), "solved");
  for (long i = 0; i < y.size(); ++i) if (i < c.R.iq(c.R.j2) || i >= c.R.iq(c.R.j2) + 7) sym::check_eq(y[i], q2[i], "other variables unchanged");
  c.R.at(y);
  eqPose(c.rel(), set ? keep : Pose{matrix3_t::Identity(), vector3_t::Zero()}, "relative pose of the frames");
}
