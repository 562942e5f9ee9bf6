// Forward kinematics of hpp-pinocchio (a binary library the engine cannot see
// into) in the symbolic build: the same poses and Jacobians, computed exactly for
// the joint types used by the harnesses.  The native replay build uses the
// real library.
#ifdef SYM_ENGINE
#include "robot.hh"
#include <stdexcept>
namespace hpp {
namespace pinocchio {
namespace {
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
struct P { M3 R; V3 p; };
M3 rx(double c, double s, int ax) { M3 m = M3::Identity(); int j = (ax + 1) % 3, k = (ax + 2) % 3; m(j, j) = c; m(k, k) = c; m(j, k) = -s; m(k, j) = s; return m; }
// transformation of a joint, and its motion subspace (rows: linear, angular) in the child frame
P local(const std::string& t, const vector_t& q, int a, Eigen::MatrixXd& S) {
  P r{M3::Identity(), V3::Zero()};
  if (t == "JointModelFreeFlyer") { r.p = V3(q[a], q[a + 1], q[a + 2]); r.R = env::rotQ(env::quat_t(q.segment<4>(a + 3))); S = Eigen::MatrixXd::Identity(6, 6); }
  else if (t == "JointModelSpherical") { r.R = env::rotQ(env::quat_t(q.segment<4>(a))); S = Eigen::MatrixXd::Zero(6, 3); S.bottomRows(3).setIdentity(); }
  else if (t == "JointModelTranslation") { r.p = V3(q[a], q[a + 1], q[a + 2]); S = Eigen::MatrixXd::Zero(6, 3); S.topRows(3).setIdentity(); }
  else if (t == "JointModelPX" || t == "JointModelPY" || t == "JointModelPZ") { int k = t.back() - 'X'; r.p[k] = q[a]; S = Eigen::MatrixXd::Zero(6, 1); S(k, 0) = 1; }
  else if (t == "JointModelRX" || t == "JointModelRY" || t == "JointModelRZ") { int k = t.back() - 'X'; r.R = rx(cos(q[a]), sin(q[a]), k); S = Eigen::MatrixXd::Zero(6, 1); S(3 + k, 0) = 1; }
  else throw std::runtime_error("joint type without stand-in: " + t);
  return r;
}
std::map<const DeviceData*, vector_t>& jacobianConf() { static std::map<const DeviceData*, vector_t> m; return m; }
}  // namespace
bool AbstractDevice::currentConfiguration(ConfigurationIn_t q) {
  DeviceData& x = d();
  x.dataUpToDate_ = 0; x.frameUpToDate_ = false; x.geomUpToDate_ = false;
  if (x.currentConfiguration_.size() != q.size()) throw std::runtime_error("configuration size");
  for (long i = 0; i < q.size(); ++i) x.currentConfiguration_[i] = q[i];
  return true;
}
void DeviceData::computeForwardKinematics(const ModelPtr_t& m, int flag) {
  auto& D = *data_; const vector_t& q = currentConfiguration_;
  if (flag & JACOBIAN) jacobianConf()[this] = q;
  for (size_t i = 1; i < m->joints.size(); ++i) {
    Eigen::MatrixXd S; P l = local(m->joints[i].shortname(), q, m->joints[i].idx_q(), S);
    const auto& pl = m->jointPlacements[i]; const auto& pa = D.oMi[m->parents[i]];
    M3 R0 = pl.rotation(), Rp = M3::Identity(); V3 p0 = pl.translation(), pp = V3::Zero();
    if (m->parents[i]) { Rp = pa.rotation(); pp = pa.translation(); }
    M3 R1 = Rp * R0; V3 p1 = pp + Rp * p0;
    M3 R = R1 * l.R; V3 p = p1 + R1 * l.p;
    D.oMi[i] = ::pinocchio::SE3(R, p);
  }
  dataUpToDate_ |= flag;
}
// columns of the joints above, moved to the frame of the joint
JointJacobian_t& Joint::jacobian(DeviceData& data, bool localFrame) const {
  if (!localFrame) throw std::runtime_error("Jacobian in the world frame");
  auto& m = *robot()->modelPtr(); const vector_t& q = jacobianConf()[&data];
  JointJacobian_t& J = data.jointJacobians_[jointIndex - 1];
  J = JointJacobian_t::Zero(6, m.nv);
  if (q.size() == 0) return J;
  M3 R = M3::Identity(); V3 p = V3::Zero();  // pose of the joint in the frame of joint i
  for (JointIndex i = jointIndex; i > 0; i = m.parents[i]) {
    Eigen::MatrixXd S; P l = local(m.joints[i].shortname(), q, m.joints[i].idx_q(), S);
    M3 T = R.transpose();
    for (long k = 0; k < S.cols(); ++k) {
      V3 v = S.col(k).head(3), w = S.col(k).tail(3), a = T * (v + w.cross(p)), b = T * w; long c = m.joints[i].idx_v() + k;
      for (int j = 0; j < 3; ++j) { J(j, c) = a[j]; J(3 + j, c) = b[j]; }
    }
    if (!m.parents[i]) break;
    M3 R0 = m.jointPlacements[i].rotation(); V3 p0 = m.jointPlacements[i].translation();
    V3 x = l.R * p + l.p; M3 Y = l.R * R; p = R0 * x + p0; R = R0 * Y;
  }
  return J;
}
}  // namespace pinocchio
}  // namespace hpp
#endif
