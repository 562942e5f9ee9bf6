// Robots made of a few joint types, with symbolic configurations.
#pragma once
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/device-sync.hh>
#include <hpp/pinocchio/joint.hh>
#include <pinocchio/multibody/model.hpp>
#include <pinocchio/multibody/data.hpp>
#include "env.hh"
namespace env {
namespace pin = ::pinocchio;
typedef Eigen::Matrix<double, 4, 1> quat_t;  // x,y,z,w
inline quat_t quatR(int k) {  // rational unit quaternions
  switch (k) {
    case 0: return quat_t(0, 0, 0, 1);
    case 1: return quat_t(sym::ratio(1, 11), sym::ratio(2, 11), sym::ratio(4, 11), sym::ratio(10, 11));
    case 2: return quat_t(sym::ratio(2, 9), sym::ratio(-4, 9), sym::ratio(5, 9), sym::ratio(6, 9));
    case 3: return quat_t(sym::ratio(1, 5), sym::ratio(4, 5), sym::ratio(-2, 5), sym::ratio(2, 5));
    default: return quat_t(sym::ratio(-2, 7), sym::ratio(3, 7), 0, sym::ratio(6, 7));
  }
}
inline matrix3_t rotQ(const quat_t& q) {
  double x = q[0], y = q[1], z = q[2], w = q[3]; matrix3_t m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
inline quat_t mulQ(const quat_t& a, const quat_t& b) {
  return quat_t(a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
                a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]);
}
inline quat_t conjQ(const quat_t& a) { return quat_t(-a[0], -a[1], -a[2], a[3]); }
// an arbitrary rotation that is not a half-turn (positive scalar part)
inline quat_t symQ(const std::string& n) {
  double x = sym::real(n + "x", -1, 1), y = sym::real(n + "y", -1, 1), z = sym::real(n + "z", -1, 1), s = 1 - x * x - y * y - z * z;
  sym::assume_lt(0, s);
  return quat_t(x, y, z, sqrt(s));
}
// the same with an angle between 0.002 and pi - 0.0102 (nominal branch of the logarithm)
inline quat_t logQ(const std::string& n) {
  double x = sym::real(n + "x", -1, 1), y = sym::real(n + "y", -1, 1), z = sym::real(n + "z", -1, 1), s = x * x + y * y + z * z;
  sym::assume_le(1e-6, s); sym::assume_le(s, 0.99997399);
  return quat_t(x, y, z, sqrt(1 - s));
}
inline vector3_t v3(const std::string& n) { return vector3_t(sym::real(n + "0"), sym::real(n + "1"), sym::real(n + "2")); }
inline matrix3_t hat(const vector3_t& v) { matrix3_t m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
struct Pose { matrix3_t R; vector3_t p; };
inline Pose operator*(const Pose& a, const Pose& b) { return Pose{matrix3_t(a.R * b.R), vector3_t(a.R * b.p + a.p)}; }
inline Pose invP(const Pose& a) { return Pose{matrix3_t(a.R.transpose()), vector3_t(-(a.R.transpose() * a.p))}; }
inline Transform3s toT(const Pose& a) { return Transform3s(a.R, a.p); }
inline Pose poseR(int k, const vector3_t& p) { return Pose{rotQ(quatR(k)), p}; }
struct Robot {
  hpp::pinocchio::DevicePtr_t d;
  Robot() { d = hpp::pinocchio::Device::create("r"); }
  template <class M> int add(int parent, const M& m, const std::string& n, const Pose& placement = Pose{matrix3_t::Identity(), vector3_t::Zero()}) { return d->model().addJoint(parent, m, toT(placement), n); }
  void done(int extra = 0) { d->createData(); if (extra) d->setDimensionExtraConfigSpace(extra); }
  JointPtr_t joint(int id) const { return hpp::pinocchio::Joint::create(d, id); }
  int iq(int id) const { return d->model().joints[id].idx_q(); }
  int iv(int id) const { return d->model().joints[id].idx_v(); }
  // arbitrary configuration; rot gives the quaternion of joint id
  vector_t conf(const std::string& n, const std::function<quat_t(int)>& rot) const {
    vector_t q(d->configSize()); auto& m = d->model(); long k = 0;
    for (size_t i = 1; i < m.joints.size(); ++i) {
      std::string t = m.joints[i].shortname(); int a = iq(i); k = a + m.joints[i].nq();
      if (t == "JointModelFreeFlyer") { vector3_t p = v3(nm(n + "t", i)); quat_t u = rot(i); for (int j = 0; j < 3; ++j) q[a + j] = p[j]; for (int j = 0; j < 4; ++j) q[a + 3 + j] = u[j]; }
      else if (t == "JointModelSpherical") { quat_t u = rot(i); for (int j = 0; j < 4; ++j) q[a + j] = u[j]; }
      else for (int j = 0; j < m.joints[i].nq(); ++j) q[a + j] = sym::real(nm(nm(n, i) + "_", j));
    }
    for (; k < q.size(); ++k) q[k] = sym::real(nm(n, k) + "x");
    return q;
  }
  // first-order motion of q along the velocity v
  vector_t move(const vector_t& q, const vector_t& v, double t) const {
    vector_t r = q; auto& m = d->model(); long kq = 0, kv = 0;
    for (size_t i = 1; i < m.joints.size(); ++i) {
      std::string s = m.joints[i].shortname(); int a = iq(i), b = iv(i); kq = a + m.joints[i].nq(); kv = b + m.joints[i].nv();
      bool ff = s == "JointModelFreeFlyer";
      if (ff || s == "JointModelSpherical") {
        quat_t u(q.segment<4>(a + (ff ? 3 : 0)));
        if (ff) { vector3_t p = rotQ(u) * v.segment<3>(b); for (int j = 0; j < 3; ++j) r[a + j] = q[a + j] + p[j] * t; a += 3; b += 3; }
        quat_t w = mulQ(u, quat_t(v[b] * t / 2, v[b + 1] * t / 2, v[b + 2] * t / 2, 1));
        for (int j = 0; j < 4; ++j) r[a + j] = w[j];
      } else for (int j = 0; j < m.joints[i].nq(); ++j) r[a + j] = q[a + j] + v[b + j] * t;
    }
    for (; kq < q.size(); ++kq, ++kv) r[kq] = q[kq] + v[kv] * t;
    return r;
  }
  void at(const vector_t& q) const { d->currentConfiguration(q); d->computeForwardKinematics(hpp::pinocchio::JOINT_POSITION); }
  // pose of a joint (0: world) at the configuration set by at
  Pose pose(int id) const {
    if (!id) return Pose{matrix3_t::Identity(), vector3_t::Zero()};
    const Transform3s& M = joint(id)->currentTransformation(); return Pose{M.rotation(), M.translation()};
  }
};
}  // namespace env
