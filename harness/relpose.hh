// Robots with a free-flyer joint 2 placed relatively to a joint 1.
#pragma once
#include <hpp/constraints/explicit/relative-transformation.hh>
#include "robot.hh"
namespace env {
namespace {
// kind: 0 world -> root; 1 A1 -> root; 2 A1 -> child of D; 3 world -> child of D;
// 4 spherical S on A -> child of E on A; 5 E -> child of E; 6 A -> root placed with rotation; 7 world -> child of the free-flyer A
struct Rel : Robot {
  int A, A1, S, E, D, B, C, F, j1, j2; Pose F1, F2; int kind;
  Rel(int extra, int k) : kind(k) {
    A = add(0, pin::JointModelFreeFlyer(), "A", poseR(k == 6 ? 3 : 0, vector3_t(1, 0, 2)));
    A1 = add(A, pin::JointModelPX(), "A1", poseR(2, vector3_t(1, -2, 0.5)));
    S = add(A, pin::JointModelSpherical(), "S", poseR(1, vector3_t(0, 1, 0.5)));
    E = add(A, pin::JointModelPY(), "E", poseR(4, vector3_t(0.5, 0, 1)));
    D = add(0, pin::JointModelTranslation(), "D", poseR(1, vector3_t(2, 1, 0)));
    B = add(0, pin::JointModelFreeFlyer(), "B", poseR(3, vector3_t(0.25, 1, -1)));
    C = add(D, pin::JointModelFreeFlyer(), "C", poseR(2, vector3_t(0, 1, 2)));
    F = add(E, pin::JointModelFreeFlyer(), "F", poseR(3, vector3_t(1, 0, -1)));
    done(extra);
    j1 = k == 1 || k == 2 ? A1 : k == 4 ? S : k == 5 ? E : k == 6 ? A : 0;
    j2 = k == 0 || k == 1 || k == 6 ? B : k == 2 || k == 3 ? C : F;
  }
  JointPtr_t J(int id) const { return id ? joint(id) : JointPtr_t(); }
  int parent(int id) const { return d->model().parents[id]; }
  Pose place(int id) const { auto& m = d->model().jointPlacements[id]; return Pose{m.rotation(), m.translation()}; }
  vector_t conf(const std::string& n, const quat_t& a, const quat_t& s, const quat_t& out) const { return Robot::conf(n, [&](int id) { return id == A ? a : id == S ? s : out; }); }
};
inline Pose frame(const std::string& n, int k, int rot) {
  Pose p{matrix3_t::Identity(), vector3_t::Zero()};
  if (k & 1) p.R = rotQ(quatR(rot));
  if (k & 2) p.p = v3(n + "t");
  return p;
}
// rational quaternion of the placement of each joint
inline quat_t placeQ(const Rel& R, int id) { return id == R.A ? quatR(R.kind == 6 ? 3 : 0) : id == R.A1 ? quatR(2) : id == R.S ? quatR(1) : id == R.E ? quatR(4) : id == R.D ? quatR(1) : id == R.B ? quatR(3) : id == R.C ? quatR(2) : quatR(3); }
// rotation of a joint in the frame of its ancestor `top` (0: world)
inline quat_t rotTo(const Rel& R, int id, int top, const std::function<quat_t(int)>& q) {
  quat_t r = quatR(0);
  for (; id && id != top; id = R.parent(id)) { quat_t x = id == R.A || id == R.S || id == R.F || id == R.B || id == R.C ? q(id) : quatR(0); r = mulQ(mulQ(placeQ(R, id), x), r); }
  return r;
}
// configuration such that the rotation of the free-flyer joint 2 is u when the frames coincide
inline vector_t confOut(const Rel& R, const std::string& n, const quat_t& u, const quat_t& f1, const quat_t& f2) {
  quat_t a = quatR(1), s = quatR(2), one = quatR(0);
  auto z = [&](int id) { return id == R.A || id == R.S ? one : one; };
  quat_t f = mulQ(f1, conjQ(f2));
  // P2 u = Rp^-1 R1 f
  if (R.kind == 1 || R.kind == 2 || R.kind == 6) {  // a = placeA^-1 Rp P2 u f^-1 (rest of joint 1)^-1
    quat_t rp = mulQ(rotTo(R, R.parent(R.j2), 0, z), placeQ(R, R.j2)), r1 = R.j1 == R.A ? one : rotTo(R, R.j1, R.A, z);
    a = mulQ(mulQ(mulQ(mulQ(conjQ(placeQ(R, R.A)), rp), u), conjQ(f)), conjQ(r1));
  } else if (R.kind == 4) {  // s = placeS^-1 E P2 u f^-1
    quat_t rp = mulQ(rotTo(R, R.E, R.A, z), placeQ(R, R.j2));
    s = mulQ(mulQ(mulQ(conjQ(placeQ(R, R.S)), rp), u), conjQ(f));
  } else if (R.kind == 7) {  // placeA a E P2 u = f
    quat_t rp = mulQ(rotTo(R, R.E, R.A, z), placeQ(R, R.j2));
    a = mulQ(mulQ(conjQ(placeQ(R, R.A)), f), conjQ(mulQ(rp, u)));
  }
  return R.conf(n, a, s, quatR(4));
}
}  // namespace
}  // namespace env
