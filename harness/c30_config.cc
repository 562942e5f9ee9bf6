// C30: distance to a configuration.
#include <hpp/constraints/configuration-constraint.hh>
#include <hpp/pinocchio/device.hh>
#include <pinocchio/multibody/model.hpp>
#include "env.hh"
using namespace env;
namespace pin = ::pinocchio;
static hpp::pinocchio::DevicePtr_t robot(int kind) {
  auto d = hpp::pinocchio::Device::create("r"); auto& m = d->model(); auto P = pin::SE3::Identity();
  if (kind == 0) { auto a = m.addJoint(0, pin::JointModelTranslation(), P, "a"); m.addJoint(a, pin::JointModelRX(), P, "b"); }
  if (kind == 1) { auto a = m.addJoint(0, pin::JointModelRX(), P, "a"); auto b = m.addJoint(a, pin::JointModelRUBX(), P, "b"); m.addJoint(b, pin::JointModelPZ(), P, "c"); }
  if (kind == 2) { auto a = m.addJoint(0, pin::JointModelRX(), P, "a"); m.addJoint(a, pin::JointModelSpherical(), P, "b"); }
  if (kind == 3) { m.addJoint(0, pin::JointModelPlanar(), P, "a"); }
  if (kind == 4) { m.addJoint(0, pin::JointModelFreeFlyer(), P, "a"); }
  d->createData();
  return d;
}
static void go(int kind) {
  auto d = robot(kind); LiegroupSpacePtr_t s = d->configSpace(); int nv = d->numberDof();
  vector_t goal = elem("goal", s), q = elem("q", s), w = vec("w", nv);
  bool masked = sym::flag("mask"), later = sym::flag("weights_set_later");
  std::vector<bool> m;
  ConfigurationConstraintPtr_t f;
  if (masked) {
    int n = sym::choose("mask_size", 2) ? nv : nv - 1;
    for (int i = 0; i < n; ++i) m.push_back(sym::choose(nm("m", i), 2));
    for (int i = 0; i < nv; ++i) w[i] = i < n && !m[i] ? 0 : 1;
    f = ConfigurationConstraint::create("f", d, goal, m);
  } else if (later) {
    f = ConfigurationConstraint::create("f", d, goal, vector_t(vec("w_old", nv))); f->weights(w);
  } else f = ConfigurationConstraint::create("f", d, goal, w);
  eqV(f->weights(), w, "weights");
  vector_t e = LiegroupElement(goal, s) - LiegroupElement(q, s);
  double v = 0; for (int i = 0; i < nv; ++i) v = v + 0.5 * w[i] * e[i] * e[i];
  if (sym::flag("evaluated_before")) { LiegroupElement o(LiegroupSpace::R1()); f->value(o, elem("p", s)); matrix_t K(1, nv); f->jacobian(K, elem("p", s)); }
  sym::check_eq((*f)(q).vector()[0], v, "half the weighted squared distance");
  matrix_t J = mat("dirty", 1, nv); f->jacobian(J, q);
  vector_t dir = vec("v", nv);
  std::vector<double> r = sym::derivative([&](double t) { vector_t x = (LiegroupElement(q, s) + vector_t(t * dir)).vector(); return toV((*f)(x).vector()); });
  double p = 0; for (int j = 0; j < nv; ++j) p = p + J(0, j) * dir[j];
  sym::check_eq(p, r[0], "the Jacobian is the derivative of the value", 1e-4);
  // declared activity
  for (int j = 0; j < nv; ++j) if (!f->activeDerivativeParameters()[j]) sym::check_eq(J(0, j), 0, "no influence of variables declared inactive");
}
SCENARIO(vector_joints) { go(0); }
SCENARIO(unbounded_rotation) { go(1); }
SCENARIO(spherical_joint) { go(2); }
SCENARIO(planar_joint) { go(3); }
