// Transformation functions: robots, frames and reference formulas.
#pragma once
#include <hpp/constraints/generic-transformation.hh>
#include <hpp/constraints/tools.hh>
#include "robot.hh"
namespace env {
namespace {
// A: free-flyer; A1: prismatic on A; B: free-flyer; B1: prismatic on B; A2: translation on A1
struct Bot : Robot {
  int A, A1, B, B1, A2;
  Bot(int extra) {
    A = add(0, pin::JointModelFreeFlyer(), "A");
    A1 = add(A, pin::JointModelPX(), "A1", poseR(2, vector3_t(1, -2, 0.5)));
    B = add(0, pin::JointModelFreeFlyer(), "B", poseR(3, vector3_t(0.25, 1, -1)));
    B1 = add(B, pin::JointModelPY(), "B1", poseR(1, vector3_t(0.5, 2, -1)));
    A2 = add(A1, pin::JointModelTranslation(), "A2", poseR(4, vector3_t(-1, 0.5, 2)));
    done(extra);
  }
  // rotation of a joint in the world: pre * (rotation of the free-flyer) * post
  void around(int id, quat_t& pre, quat_t& post) const {
    pre = id == B || id == B1 ? quatR(3) : quatR(0);
    post = id == A1 ? quatR(2) : id == A2 ? mulQ(quatR(2), quatR(4)) : id == B1 ? quatR(1) : quatR(0);
  }
  int root(int id) const { return !id ? 0 : id == B || id == B1 ? B : A; }
  JointPtr_t J(int id) const { return id ? joint(id) : JointPtr_t(); }
};
inline Pose ident() { return Pose{matrix3_t::Identity(), vector3_t::Zero()}; }
// frame of a joint: identity, pure rotation, pure translation, both
inline Pose frame(const std::string& n, int k, int rot) {
  Pose p = ident();
  if (k & 1) p.R = rotQ(quatR(rot));
  if (k & 2) { p.p = v3(n + "t"); sym::assume_lt(0.1, p.p[0]); }
  return p;
}
struct Fn { DifferentiableFunctionPtr_t f; Pose F1, F2; int j1, j2; std::vector<bool> mask; bool pos, ori, so3, rel; };
template <class T> Fn mk(Bot& R, const std::string& n, int j1, int j2, const Pose& F1, const Pose& F2, const std::vector<bool>& mask, int how) {
  Fn r; r.F1 = F1; r.F2 = F2; r.j1 = j1; r.j2 = j2; r.mask = mask; r.pos = T::ComputePosition; r.ori = T::ComputeOrientation; r.so3 = T::OutputR3xSO3; r.rel = T::IsRelative;
  if (how == 1) { r.F2 = ident(); r.f = T::IsRelative ? T::create(n, R.d, R.J(j1), R.J(j2), toT(F1), mask) : T::create(n, R.d, R.J(j2), toT(F1), mask); }
  else if (how == 2) {  // changed after the construction
    auto p = T::create(n, R.d, R.J(R.A1), R.J(R.B1), toT(poseR(3, vector3_t(1, 2, 3))), toT(poseR(1, vector3_t(-1, 2, 0))), mask);
    if (!T::IsRelative) p = T::create(n, R.d, R.J(R.B1), toT(poseR(1, vector3_t(-1, 2, 0))), toT(poseR(3, vector3_t(1, 2, 3))), mask);
    if (T::IsRelative) p->joint1(R.J(j1)); p->joint2(R.J(j2)); p->frame1InJoint1(toT(F1)); p->frame2InJoint2(toT(F2)); r.f = p;
  } else r.f = T::IsRelative ? T::create(n, R.d, R.J(j1), R.J(j2), toT(F1), toT(F2), mask) : T::create(n, R.d, R.J(j2), toT(F2), toT(F1), mask);
  return r;
}
// pose of frame 2 in frame 1
inline Pose relPose(const Bot& R, const Fn& f, const vector_t& q) {
  R.at(q);
  Pose a = (f.rel ? R.pose(f.j1) : ident()) * f.F1, b = R.pose(f.j2) * f.F2;
  return invP(a) * b;
}
// configuration such that the rotation of frame 2 in frame 1 is u
inline vector_t confRel(const Bot& R, const Fn& f, const std::string& n, const quat_t& u, const quat_t& F1, const quat_t& F2) {
  quat_t p1, s1, p2, s2; R.around(f.j1, p1, s1); R.around(f.j2, p2, s2);
  int r1 = f.rel ? R.root(f.j1) : 0, r2 = R.root(f.j2);
  quat_t a = quatR(1), b = quatR(2);
  auto q0 = [&](int r) { return r == R.A ? a : b; };
  if (r1 != r2) {
    if (r2) {
      quat_t W1 = r1 ? mulQ(mulQ(p1, q0(r1)), s1) : quatR(0);
      quat_t x = mulQ(mulQ(mulQ(mulQ(mulQ(conjQ(p2), W1), F1), u), conjQ(F2)), conjQ(s2));
      (r2 == R.A ? a : b) = x;
    } else (r1 == R.A ? a : b) = mulQ(mulQ(mulQ(mulQ(conjQ(p1), F2), conjQ(u)), conjQ(F1)), conjQ(s1));
  }
  return R.conf(n, [&](int id) { return id == R.A ? a : b; });
}
inline std::vector<bool> maskBits(int n, int bits) { std::vector<bool> m; for (int i = 0; i < n; ++i) m.push_back((bits >> i) & 1); return m; }
// joints (joint1, joint2)
inline void joints(Bot& R, bool rel, int& j1, int& j2) {
  if (!rel) { int k = sym::choose("joint", 3); j1 = 0; j2 = k == 0 ? R.A : k == 1 ? R.B1 : R.A2; return; }
  switch (sym::choose("joints", 7)) {
    case 0: j1 = R.A; j2 = R.B; break;
    case 1: j1 = R.B1; j2 = R.A1; break;
    case 2: j1 = 0; j2 = R.B; break;
    case 3: j1 = R.A1; j2 = 0; break;
    case 4: j1 = R.A; j2 = R.A1; break;
    case 5: j1 = R.A2; j2 = R.A; break;
    default: j1 = R.A1; j2 = R.B1;
  }
}
template <class T> Fn pick(Bot& R, bool both, int masks, vector_t& q, quat_t (*rot)(const std::string&) = symQ) {
  int j1, j2; joints(R, T::IsRelative, j1, j2);
  int a, b;
  if (T::IsOrientation) { int k = sym::choose("frames", 4); a = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0 : 3; b = k == 0 ? 0 : k == 1 ? 0 : k == 2 ? 1 : 3; }
  else { a = sym::choose("frame1", 4); b = sym::choose("frame2", 3); if (b) ++b; }
  int how = (a == 3 && b == 3) ? sym::choose("changed_later", 2) * 2 : b == 0 ? 1 : 0;
  int n = T::DerSize; std::vector<bool> m(n, true);
  if (masks && a == 3 && b >= 2) m = maskBits(n, n == 3 ? 1 + sym::choose("mask", 7) : (const int[]){63, 1, 21, 42, 51, 32, 60}[sym::choose("mask", 7)]);
  if (masks == 2) for (int i = n - 3; i < n; ++i) m[i] = true;
  Fn f = mk<T>(R, "f", j1, j2, frame("F1", a, 2), frame("F2", b, 4), m, how);
  q = both ? R.conf("q", [&](int id) { return symQ(nm("u", id)); }) : confRel(R, f, "q", rot("u"), quatR(a & 1 ? 2 : 0), quatR(how == 1 || !(b & 1) ? 0 : 4));
  return f;
}
}  // namespace
}  // namespace env
