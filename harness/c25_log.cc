// C25: logarithms of rotations and rigid motions and their Jacobians.
#include <hpp/constraints/tools.hh>
#include "env.hh"
using namespace env;
typedef Eigen::Matrix<double, 6, 1> v6;
typedef Eigen::Matrix<double, 6, 6> m6;
static matrix3_t cross(const vector3_t& v) { matrix3_t m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
static matrix3_t rot(const vector3_t& u, double c, double s) {
  matrix3_t R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = (i == j ? c : 0) + (1 - c) * u[i] * u[j];
  return R + s * cross(u);
}
static vector3_t axis(bool generic) { double u[3]; sym::unit("u", u, 3); if (generic) for (int i = 0; i < 3; ++i) sym::assume_ne(u[i], 0); return vector3_t(u[0], u[1], u[2]); }
static vector3_t v3(const std::string& n) { return vector3_t(sym::real(n + "0"), sym::real(n + "1"), sym::real(n + "2")); }
static const double PI = 3.14159265358979323846;
// nominal: away from the identity and from half-turns
SCENARIO(rotation) {
  double a; sym::angle("a", a, 0.001, PI - 0.0101); vector3_t u = axis(false), r; double th;
  logSO3(rot(u, cos(a), sin(a)), th, r);
  sym::check_eq(th, a, "angle");
  for (int i = 0; i < 3; ++i) sym::check_eq(r[i], a * u[i], "the logarithm is the angle times the axis");
}
SCENARIO(identity) {
  vector3_t r; double th; logSO3(matrix3_t::Identity(), th, r);
  sym::check(th == 0, "angle of the identity"); for (int i = 0; i < 3; ++i) sym::check_eq(r[i], 0, "logarithm of the identity");
  matrix3_t J; JlogSO3(th, r, J); eqM(J, matrix3_t::Identity(), "Jacobian at the identity");
  vector3_t p = v3("p"); v6 w; logSE3(Transform3s(matrix3_t::Identity(), p), w);
  for (int i = 0; i < 6; ++i) sym::check_eq(w[i], i < 3 ? p[i] : 0, "logarithm of a translation");
  m6 K; JlogSE3(Transform3s(matrix3_t::Identity(), p), K);
  vector3_t o = v3("o"), v = v3("v"), Ko = K.topLeftCorner<3, 3>() * v + K.topRightCorner<3, 3>() * o, z = K.bottomLeftCorner<3, 3>() * v + K.bottomRightCorner<3, 3>() * o;
  // derivative of the logarithm at a translation p along a motion (v, o) in the moving frame
  vector3_t e = v + p.cross(o) / 2;
  for (int i = 0; i < 3; ++i) { sym::check_eq(Ko[i], e[i], "Jacobian at a translation"); sym::check_eq(z[i], o[i], "Jacobian at a translation"); }
}
// almost half-turns
SCENARIO(rotation_close_to_half_turn) {
  double a; sym::angle("a", a, PI - 0.0099, PI - 0.0001); vector3_t u = axis(false), r; double th;
  logSO3(rot(u, cos(a), sin(a)), th, r);
  sym::check_eq(th, a, "angle");
  for (int i = 0; i < 3; ++i) { sym::check_eq(r[i] * r[i], a * u[i] * (a * u[i]), "the logarithm is the angle times the axis"); sym::check_le(0, r[i] * u[i], "sign of the logarithm"); }
}
SCENARIO(half_turn) {
  vector3_t u = axis(false), r; double th;
  logSO3(rot(u, -1, 0), th, r);
  sym::check_eq(th, PI, "angle");
  for (int i = 0; i < 3; ++i) { sym::check_eq(r[i] * r[i], PI * u[i] * (PI * u[i]), "norm of the logarithm"); for (int j = 0; j < i; ++j) sym::check_le(0, r[i] * r[j] * u[i] * u[j], "axis of the logarithm"); }
}
static void jac3(double lo, double hi, bool generic) {
  double a; sym::angle("a", a, lo, hi); vector3_t u = axis(generic), r, o = v3("o"); double th;
  matrix3_t R = rot(u, cos(a), sin(a)), J;
  logSO3(R, th, r); JlogSO3(th, r, J);
  vector3_t w = J * o;
  std::vector<double> d = sym::derivative([&](double t) { matrix3_t S = R + R * cross(o) * t; vector3_t x; double y; logSO3(S, y, x); return std::vector<double>{x[0], x[1], x[2]}; });
  for (int i = 0; i < 3; ++i) sym::check_eq(w[i], d[i], "the Jacobian is the derivative of the logarithm", 1e-3);
}
SCENARIO(rotation_jacobian_half_turn_branch) { jac3(PI - 0.0099, PI - 0.0001, false); }
SCENARIO(rotation_jacobian) { jac3(0.001, PI - 0.0101, false); }
SCENARIO(rotation_jacobian_close_to_half_turn) {
  // at the exact logarithm
  double a; sym::angle("a", a, PI - 0.0099, PI - 0.0001); vector3_t u = axis(false), o = v3("o");
  matrix3_t J; JlogSO3(a, vector3_t(a * u), J);
  // exp(r) is the rotation: the left-trivialised derivative of the exponential is the inverse of J
  double c = cos(a), s = sin(a);
  matrix3_t U = cross(u), D = matrix3_t::Identity() - (1 - c) / a * U + (1 - s / a) * U * U;
  vector3_t w = J * (D * o);
  for (int i = 0; i < 3; ++i) sym::check_eq(w[i], o[i], "inverse of the derivative of the exponential");
}
static vector3_t Vp(double a, const vector3_t& u, const vector3_t& v) {
  double c = cos(a), s = sin(a);
  matrix3_t U = cross(u);
  return v + (1 - c) / a * (U * v) + (1 - s / a) * (U * (U * v));
}
SCENARIO(motion) {
  double a; sym::angle("a", a, 0.0101, PI - 0.0101); vector3_t u = axis(false), p = v3("p"); v6 w;
  logSE3(Transform3s(rot(u, cos(a), sin(a)), p), w);
  for (int i = 0; i < 3; ++i) sym::check_eq(w[3 + i], a * u[i], "rotation part of the logarithm");
  vector3_t q = Vp(a, u, w.head<3>());
  for (int i = 0; i < 3; ++i) sym::check_eq(q[i], p[i], "the exponential of the logarithm is the motion");
}
static void jac6(double lo, double hi, vector3_t (*ax)()) {
  double a; sym::angle("a", a, lo, hi); vector3_t u = ax(), p = v3("p"), o = v3("o"), v = v3("v"); v6 x; x << v, o;
  matrix3_t R = rot(u, cos(a), sin(a)); m6 J; JlogSE3(Transform3s(R, p), J); v6 w = J * x;
  std::vector<double> d = sym::derivative([&](double t) {
    v6 y; logSE3(Transform3s(matrix3_t(R + R * cross(o) * t), vector3_t(p + R * v * t)), y); return std::vector<double>(y.data(), y.data() + 6); });
  for (int i = 0; i < 6; ++i) sym::check_eq(w[i], d[i], "the Jacobian is the derivative of the logarithm", 1e-3);
}
SCENARIO(motion_jacobian) { jac6(0.0101, PI - 0.0101, []() { return axis(false); }); }
// small rotations: truncated series, correct up to 1e-8; sin and cos enclosed by their series
SCENARIO(small_motion) {
  double a; sym::angle("a", a, 1e-4, 0.0099);
  double c = cos(a), s = sin(a), a2 = a * a;
  sym::assume_le(s, a * (1 - a2 / 6 + a2 * a2 / 120)); sym::assume_le(a * (1 - a2 / 6 + a2 * a2 / 120 - a2 * a2 * a2 / 5040), s);
  sym::assume_le(c, 1 - a2 / 2 + a2 * a2 / 24); sym::assume_le(1 - a2 / 2 + a2 * a2 / 24 - a2 * a2 * a2 / 720, c);
  vector3_t p = vector3_t::Unit(sym::choose("p", 3)); v6 w;
  logSE3(Transform3s(rot(vector3_t::Unit(2), c, s), p), w);
  vector3_t q = Vp(a, vector3_t::Unit(2), w.head<3>());
  for (int i = 0; i < 3; ++i) { sym::check_le(q[i] - p[i], 1e-8, "exponential of the logarithm"); sym::check_le(p[i] - q[i], 1e-8, "exponential of the logarithm"); }
}
SCENARIO(small_motion_jacobian) {
  double a; sym::angle("a", a, 1e-4, 0.0099);
  double c = cos(a), s = sin(a), a2 = a * a;
  sym::assume_le(s, a * (1 - a2 / 6 + a2 * a2 / 120)); sym::assume_le(a * (1 - a2 / 6 + a2 * a2 / 120 - a2 * a2 * a2 / 5040), s);
  sym::assume_le(c, 1 - a2 / 2 + a2 * a2 / 24); sym::assume_le(1 - a2 / 2 + a2 * a2 / 24 - a2 * a2 * a2 / 720, c);
  vector3_t p = vector3_t::Unit(sym::choose("p", 3)), z = vector3_t::Zero(), v = z, o = z; int k = sym::choose("direction", 4); if (k == 3) v = vector3_t::Unit(0); else o = vector3_t::Unit(k);
  v6 x; x << v, o; matrix3_t R = rot(vector3_t::Unit(2), c, s); m6 J; JlogSE3(Transform3s(R, p), J); v6 w = J * x;
  std::vector<double> d = sym::derivative([&](double t) {
    v6 y; logSE3(Transform3s(matrix3_t(R + R * cross(o) * t), vector3_t(p + R * v * t)), y); return std::vector<double>(y.data(), y.data() + 6); });
  for (int i = 0; i < 6; ++i) { sym::check_le(w[i] - d[i], 1e-4, "the Jacobian is the derivative of the logarithm"); sym::check_le(d[i] - w[i], 1e-4, "the Jacobian is the derivative of the logarithm"); }
}
SCENARIO(configuration) {
  double h[4]; sym::unit("h", h, 4);
  double x = h[0], y = h[1], z = h[2], w = h[3];
  matrix3_t R; R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
  vector3_t p = v3("p"); Eigen::Matrix<double, 7, 1> q; se3ToConfig(Transform3s(R, p), q);
  for (int i = 0; i < 3; ++i) sym::check_eq(q[i], p[i], "translation");
  for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) sym::check_eq(q[3 + i] * q[3 + j], h[i] * h[j], "quaternion up to sign");
}
