// C19: explicit relative transformation: value and Jacobian.
#include "relpose.hh"
using namespace env;
typedef explicit_::RelativeTransformation RT;
static Eigen::RowBlockIndices rows(const segments_t& s) { return Eigen::RowBlockIndices(s); }
// inputs that the function is documented to have: joints on the path between joint 1 and the parent of joint 2
static void inputs(const Rel& R, segments_t& c, segments_t& v) {
  std::vector<bool> on(R.d->model().joints.size(), false);
  for (int i = R.j1; i; i = R.parent(i)) on[i] = !on[i];
  for (int i = R.parent(R.j2); i; i = R.parent(i)) on[i] = !on[i];
  for (size_t i = 1; i < on.size(); ++i) if (on[i]) { auto& j = R.d->model().joints[i]; c.push_back(segment_t(j.idx_q(), j.nq())); v.push_back(segment_t(j.idx_v(), j.nv())); }
}
static vector_t get(const vector_t& q, const segments_t& s) { vector_t r(Eigen::BlockIndex::cardinal(s)); long k = 0; for (auto& x : s) for (long i = 0; i < x.second; ++i) r[k++] = q[x.first + i]; return r; }
static void put(vector_t& q, const segments_t& s, const vector_t& r) { long k = 0; for (auto& x : s) for (long i = 0; i < x.second; ++i) q[x.first + i] = r[k++]; }
struct Case {
  Rel R; int f1, f2; explicit_::RelativeTransformationPtr_t f; segments_t in, vin; vector_t q;
  Case(bool full) : R(1, sym::choose("joints", 8)) {
    int k = sym::choose("frames", 2) ? 3 : R.kind % 3; f1 = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3; f2 = k == 0 ? 0 : k == 1 ? 2 : k == 2 ? 1 : 3;
    R.F1 = frame("F1", f1, 2); R.F2 = frame("F2", f2, 4);
    f = RT::create("f", R.d, R.J(R.j1), R.J(R.j2), toT(R.F1), toT(R.F2));
    inputs(R, in, vin);
    q = confOut(R, "q", symQ("u"), quatR(f1 & 1 ? 2 : 0), quatR(f2 & 1 ? 4 : 0));
  }
};
SCENARIO(value) {
  Case c(true); Rel& R = c.R;
  sym::check(c.f->inputSize() == (long)Eigen::BlockIndex::cardinal(c.in) && c.f->inputDerivativeSize() == (long)Eigen::BlockIndex::cardinal(c.vin), "inputs: variables between joint 1 and the parent of joint 2");
  // the robot is elsewhere
  vector_t o = R.conf("o", quatR(3), quatR(1), quatR(2));
  int state = sym::choose("state", 3);
  if (state == 1) put(o, c.in, get(c.q, c.in));
  R.at(o);
  if (state == 2) { put(o, c.in, get(c.q, c.in)); R.d->currentConfiguration(o); }  // poses not computed yet
  LiegroupElement y = (*c.f)(get(c.q, c.in)); vector_t x = y.vector();
  vector_t q = c.q; q.segment(R.iq(R.j2), 7) = x;
  double n = 0; for (int i = 3; i < 7; ++i) n = n + x[i] * x[i]; sym::check_eq(n, 1, "unit quaternion");
  R.at(q);
  Pose a = R.pose(R.j1) * R.F1, b = R.pose(R.j2) * R.F2;
  for (int i = 0; i < 3; ++i) { sym::check_eq(a.p[i], b.p[i], "the frames of both joints coincide"); for (int j = 0; j < 3; ++j) sym::check_eq(a.R(i, j), b.R(i, j), "the frames of both joints coincide"); }
}
SCENARIO(jacobian) {
  Case c(false); Rel& R = c.R;
  R.at(R.conf("o", quatR(3), quatR(1), quatR(2)));
  if (sym::flag("evaluated_elsewhere")) { vector_t o = R.conf("p", quatR(1), quatR(3), quatR(2)); matrix_t K(6, c.f->inputDerivativeSize()); c.f->jacobian(K, get(o, c.in)); }
  long nv = c.f->inputDerivativeSize(); matrix_t J = mat("dirty", 6, nv);
  c.f->jacobian(J, get(c.q, c.in));
  vector_t v = vec("v", nv), full = vector_t::Zero(R.d->numberDof()); put(full, c.vin, v);
  vector_t y = (*c.f)(get(c.q, c.in)).vector();
  std::vector<double> d = sym::derivative([&](double t) { return toV((*c.f)(get(R.move(c.q, full, t), c.in)).vector()); });
  quat_t u(y.segment<4>(3)), w = mulQ(conjQ(u), quat_t(d[3], d[4], d[5], d[6]));
  vector3_t p = rotQ(u).transpose() * vector3_t(d[0], d[1], d[2]);
  for (int i = 0; i < 6; ++i) { double s = 0; for (long j = 0; j < nv; ++j) s = s + J(i, j) * v[j]; sym::check_eq(s, i < 3 ? p[i] : 2 * w[i - 3], "the Jacobian is the derivative of the value", 1e-3); }
}
