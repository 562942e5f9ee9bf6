// C15: locked joints.
#include "subst.hh"
#include <hpp/constraints/locked-joint.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/joint.hh>
#include <pinocchio/multibody/model.hpp>
using namespace env;
namespace pin = ::pinocchio;
namespace {
struct Robot {
  hpp::pinocchio::DevicePtr_t d; std::vector<int> q, v, nq, nv;  // per joint
  Robot(int extra) {
    d = hpp::pinocchio::Device::create("r"); auto& m = d->model(); auto P = pin::SE3::Identity();
    auto a = m.addJoint(0, pin::JointModelTranslation(), P, "a");
    auto b = m.addJoint(a, pin::JointModelRX(), P, "b");
    auto c = m.addJoint(b, pin::JointModelRUBX(), P, "c");
    m.addJoint(a, pin::JointModelSpherical(), P, "s");
    m.addJoint(c, pin::JointModelPZ(), P, "p");
    d->createData();
    if (extra) d->setDimensionExtraConfigSpace(extra);
    for (size_t i = 1; i < m.joints.size(); ++i) { q.push_back(m.joints[i].idx_q()); v.push_back(m.joints[i].idx_v()); nq.push_back(m.joints[i].nq()); nv.push_back(m.joints[i].nv()); }
  }
};
}
static void lock(const Robot& R, const LockedJointPtr_t& c, const LiegroupSpacePtr_t& s, const vector_t& value, int q0, int v0) {
  LiegroupSpacePtr_t all = R.d->configSpace(); int n = s->nq(), nv = s->nv();
  sym::check(c->rankInConfiguration() == q0 && c->rankInVelocity() == v0 && c->configSize() == n && c->numberDof() == nv, "ranks and sizes");
  sym::check(c->inputConf().empty() && c->inputVelocity().empty(), "no input");
  sym::check(c->outputConf() == segments_t(1, segment_t(q0, n)) && c->outputVelocity() == segments_t(1, segment_t(v0, nv)), "the outputs are the variables of the joint");
  sym::check(c->comparisonType() == ComparisonTypes_t(nv, Equality), "comparison types");
  vector_t q = elem("q", all);
  auto gap = [&](const vector_t& x, const vector_t& val) { return vector_t(LiegroupElement(vector_t(x.segment(q0, n)), s) - LiegroupElement(val, s)); };
  eqV((c->function())(q).vector(), gap(q, value), "residual");
  for (long i = 0; i < q.size(); ++i) sym::check((c->function().activeParameters()[i] == (i >= q0 && i < q0 + n)), "active variables");
  BS b(all); b.errorThreshold(sym::real("threshold", 0.01, 1)); b.maxIterations(1);
  sym::check(b.add(c, 0), "accepted");
  sym::check(b.explicitConstraintSet().errorSize() == nv, "solved explicitly");
  vector_t g = gap(q, value); double n2 = g.squaredNorm(), t2 = b.errorThreshold() * b.errorThreshold();
  sym::check(b.isSatisfied(q) == (n2 < t2), "satisfied when the variables of the joint have the stored value");
  vector_t r = q; b.explicitConstraintSet().solve(r);
  for (long i = 0; i < q.size(); ++i) sym::check_eq(r[i], i >= q0 && i < q0 + n ? value[i - q0] : q[i], "solving gives the stored value to the joint and changes nothing else");
  // another value
  vector_t p = elem("p", all); b.rightHandSideFromConfig(c, p);
  vector_t w = gap(p, value), o(w.size()); sym::check(b.getRightHandSide(c, o), "known"); eqV(o, w, "right-hand side of a configuration");
  vector_t x = q; b.explicitConstraintSet().solve(x);
  for (long i = 0; i < q.size(); ++i) sym::check_eq(x[i], i >= q0 && i < q0 + n ? p[i] : q[i], "solving with the right-hand side of a configuration gives its joint value", 1e-6);
  sym::check(b.isSatisfied(x), "the result is satisfied");
  // a copy
  ImplicitPtr_t k = c->copy(); LockedJointPtr_t kl = HPP_DYNAMIC_PTR_CAST(LockedJoint, k);
  sym::check(kl && kl != c && *k == *c && kl->jointName() == c->jointName() && kl->rankInConfiguration() == q0, "a copy is equal");
}
static void jac(const Robot& R, const LockedJointPtr_t& c, int v0, int nv) {
  vector_t q = elem("q", R.d->configSpace()); matrix_t J = mat("dirty", nv, R.d->numberDof());
  c->function().jacobian(J, q);
  for (long j = 0; j < J.cols(); ++j) for (int i = 0; i < nv; ++i) if (j < v0 || j >= v0 + nv) sym::check_eq(J(i, j), 0, "no influence of other velocities");
}
SCENARIO(whole_joint) {
  Robot R(sym::choose("extra", 2)); int j = sym::choose("joint", 5);
  JointPtr_t J = R.d->jointAt(j);
  vector_t v = elem("value", J->configurationSpace());
  LockedJointPtr_t c = LockedJoint::create(J, LiegroupElement(v, J->configurationSpace()));
  lock(R, c, J->configurationSpace(), v, R.q[j], R.v[j]);
  jac(R, c, R.v[j], R.nv[j]);
  auto pr = c->doesConstrainRelPoseBetween(R.d);
  int parent = R.d->model().parents[j + 1];
  sym::check(hpp::pinocchio::Joint::index(pr.first) == (size_t)parent && pr.second && pr.second->index() == (size_t)j + 1, "the relative pose of the joint and its parent is fixed");
}
SCENARIO(part_of_joint) {
  Robot R(0); JointPtr_t J = R.d->jointAt(sym::choose("joint", 2) ? 4 : 0); int j = J->index() - 1;
  int first = sym::choose("first", R.nq[j]), size = 1 + sym::choose("size", R.nq[j] - first);
  vector_t v = vec("value", size);
  LockedJointPtr_t c = LockedJoint::create(J, first, v);
  lock(R, c, LiegroupSpace::Rn(size), v, R.q[j] + first, R.v[j] + first);
  jac(R, c, R.v[j] + first, size);
}
SCENARIO(extra_variables) {
  Robot R(2); int first = sym::choose("first", 2), size = 1 + sym::choose("size", 2 - first);
  vector_t v = vec("value", size);
  LockedJointPtr_t c = LockedJoint::create(R.d, first, v);
  int nq = R.d->configSize() - 2, nv = R.d->numberDof() - 2;
  lock(R, c, LiegroupSpace::Rn(size), v, nq + first, nv + first);
  jac(R, c, nv + first, size);
}
