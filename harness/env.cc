// Environment of the code under test in the symbolic build: the Lie group
// arithmetic of hpp-pinocchio (a binary library the engine cannot see into).
// Vector spaces are exact.  Rotation and rigid-motion groups are abstract: log
// and exp are uninterpreted mutually inverse bijections between group elements
// and tangent vectors with log(1)=0, and their derivatives are uninterpreted
// matrices; composition, inverse and adjoint are exact.  The native replay
// build uses the real library.
#ifdef SYM_ENGINE
#include <cstdio>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include <stdexcept>
#include "sym.hh"
namespace hpp {
namespace pinocchio {
namespace {
typedef std::vector<double> V;
typedef Eigen::Matrix<double, 3, 3> M3;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::MatrixXd MX;
enum Kind { RN, SO2, SO3, SE2, SE3 };
struct Blk { Kind k; int iq, iv, nq, nv; };
std::vector<Blk> blocks(const LiegroupSpace& s) {
  std::vector<Blk> r;
  int iq = 0, iv = 0;
  for (std::size_t i = 0; i < s.liegroupTypes().size(); ++i) {
    int w = s.liegroupTypes()[i].which(), nq = s.nq(i), nv = s.nv(i);
    switch (w) {
      case 6: r.push_back({RN, iq, iv, 3, 3}); r.push_back({SO3, iq + 3, iv + 3, 4, 3}); break;
      case 7: r.push_back({RN, iq, iv, 2, 2}); r.push_back({SO2, iq + 2, iv + 2, 2, 1}); break;
      case 8: r.push_back({SO2, iq, iv, 2, 1}); break;
      case 9: r.push_back({SO3, iq, iv, 4, 3}); break;
      case 10: r.push_back({SE2, iq, iv, 4, 3}); break;
      case 11: r.push_back({SE3, iq, iv, 7, 6}); break;
      default: r.push_back({RN, iq, iv, nq, nv});
    }
    iq += nq; iv += nv;
  }
  return r;
}
// quaternions (x,y,z,w)
V qmul(const V& a, const V& b) {
  return {a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
          a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]};
}
V qconj(const V& a) { return {-a[0], -a[1], -a[2], a[3]}; }
M3 qmat(const V& q) {
  double x = q[0], y = q[1], z = q[2], w = q[3];
  M3 m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
      2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
M3 skew(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
V sub(const V& a, int i, int n) { return V(a.begin() + i, a.begin() + i + n); }
V cat(const V& a, const V& b) { V r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
V ident(Kind k) { switch (k) { case SO2: return {1, 0}; case SO3: return {0, 0, 0, 1}; case SE2: return {0, 0, 1, 0}; default: return {0, 0, 0, 0, 0, 0, 1}; } }
V inv(Kind k, const V& a) {
  if (k == SO2) return {a[0], -a[1]};
  if (k == SO3) return qconj(a);
  if (k == SE2) return {-(a[2] * a[0] + a[3] * a[1]), -(-a[3] * a[0] + a[2] * a[1]), a[2], -a[3]};
  V q = qconj(sub(a, 3, 4));
  V3 t = -(qmat(q) * V3(a[0], a[1], a[2]));
  return cat({t[0], t[1], t[2]}, q);
}
V mul(Kind k, const V& a, const V& b) {
  if (k == SO2) return {a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]};
  if (k == SO3) return qmul(a, b);
  if (k == SE2) return {a[0] + a[2] * b[0] - a[3] * b[1], a[1] + a[3] * b[0] + a[2] * b[1], a[2] * b[2] - a[3] * b[3], a[3] * b[2] + a[2] * b[3]};
  V qa = sub(a, 3, 4);
  V3 t = V3(a[0], a[1], a[2]) + qmat(qa) * V3(b[0], b[1], b[2]);
  return cat({t[0], t[1], t[2]}, qmul(qa, sub(b, 3, 4)));
}
// Ad(D^-1)
MX adInv(Kind k, const V& D) {
  if (k == SO2) return MX::Identity(1, 1);
  if (k == SO3) return qmat(qconj(D));
  if (k == SE2) {
    MX m(3, 3);
    double c = D[2], s = D[3];
    m << c, s, s * D[0] - c * D[1], -s, c, c * D[0] + s * D[1], 0, 0, 1;  // R^T [ . , -(J t)]
    m(0, 2) = -(c * D[1] - s * D[0]); m(1, 2) = s * D[1] + c * D[0];
    return m;
  }
  M3 R = qmat(sub(D, 3, 4)); V3 t(D[0], D[1], D[2]);
  MX m = MX::Zero(6, 6);
  m.topLeftCorner<3, 3>() = R.transpose();
  m.bottomRightCorner<3, 3>() = R.transpose();
  m.topRightCorner<3, 3>() = -R.transpose() * skew(t);
  return m;
}
bool zeroV(const V& v) { for (double x : v) if (!sym::zero(x)) return false; return true; }
bool sameV(const V& a, const V& b) { for (size_t i = 0; i < a.size(); ++i) if (!sym::zero(a[i] - b[i])) return false; return true; }
bool isIdent(Kind k, const V& D) {
  V e = ident(k);
  if (sameV(D, e)) return true;
  if (k == SO3 || k == SE3) { for (int i = e.size() - 4; i < (int)e.size(); ++i) e[i] = -e[i]; return sameV(D, e); }
  return false;
}
struct Pair { Kind k; V D, v; };
std::vector<Pair> table;
const char* kname[] = {"Rn", "SO2", "SO3", "SE2", "SE3"};
int nvOf(Kind k) { return k == SO2 ? 1 : k == SE3 ? 6 : 3; }
V baseV(V v) { for (double& x : v) x = sym::base(x); return v; }
bool hasEps(const V& v) { for (double x : v) if (!sym::zero(x - sym::base(x))) return true; return false; }
V epsV(const V& v) { V r; for (double x : v) r.push_back(sym::coef_eps(x)); return r; }
V canonQ(Kind k, V D) {  // q and -q are the same element
  return D;
}
V logBase(Kind k, const V& D) {
  int nv = nvOf(k);
  if (isIdent(k, D)) return V(nv, 0.);
  for (auto& p : table) if (p.k == k) {
    if (sameV(p.D, D)) return p.v;
    if (k == SO3 || k == SE3) { V n = D; for (size_t i = n.size() - 4; i < n.size(); ++i) n[i] = -n[i]; if (sameV(p.D, n)) return p.v; }
  }
  V v;
  std::string nm = std::string("log") + kname[k] + "_" + std::to_string(table.size()) + "_";
  for (int i = 0; i < nv; ++i) v.push_back(sym::real(nm + std::to_string(i), -3, 3));
  table.push_back({k, D, v});
  return v;
}
V expBase(Kind k, const V& v) {
  if (zeroV(v)) return ident(k);
  for (auto& p : table) if (p.k == k && sameV(p.v, v)) return p.D;
  V D = ident(k);
  std::string nm = std::string("exp") + kname[k] + "_" + std::to_string(table.size()) + "_";
  if (k == SO2) { sym::unit(nm, &D[0], 2); }
  else if (k == SO3) sym::unit(nm, &D[0], 4);
  else if (k == SE2) { D[0] = sym::real(nm + "x"); D[1] = sym::real(nm + "y"); sym::unit(nm, &D[2], 2); }
  else { for (int i = 0; i < 3; ++i) D[i] = sym::real(nm + "t" + std::to_string(i)); sym::unit(nm, &D[3], 4); }
  table.push_back({k, D, v});
  return D;
}
MX Jlog(Kind k, const V& D) {
  int nv = nvOf(k);
  if (k == SO2 || isIdent(k, D)) return MX::Identity(nv, nv);
  MX m(nv, nv);
  V key = D;
  if (k == SO3 || k == SE3) {  // even in the quaternion: key on the rotation matrix
    V q = k == SO3 ? D : sub(D, 3, 4); M3 R = qmat(q); key = k == SO3 ? V() : sub(D, 0, 3);
    for (int i = 0; i < 9; ++i) key.push_back(R(i / 3, i % 3));
  }
  for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j)
    m(i, j) = k == SE3 && i >= 3 && j < 3 ? 0 : sym::ufq(std::string("Jlog") + kname[k] + std::to_string(i) + std::to_string(j), key);
  return m;
}
MX inverse(const MX& m) {
  if (m.rows() == 1) { MX r(1, 1); r(0, 0) = 1 / m(0, 0); return r; }
  if (m.rows() == 3) {
    double d = 0; MX r(3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
      int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
      r(i, j) = m(a, c) * m(b, e) - m(a, e) * m(b, c);
    }
    for (int j = 0; j < 3; ++j) d = d + m(0, j) * r(j, 0);
    return r / d;
  }
  throw std::runtime_error("environment: derivative of exp on SE(3) is not modelled");
}
// body velocity of a perturbed element D0 + eps D1
V bodyVel(Kind k, const V& D) {
  V D0 = baseV(D), D1 = epsV(D);
  if (k == SO2) return {D0[0] * D1[1] - D0[1] * D1[0]};
  if (k == SE2) { double c = D0[2], s = D0[3]; return {c * D1[0] + s * D1[1], -s * D1[0] + c * D1[1], c * D1[3] - s * D1[2]}; }
  V q0 = k == SO3 ? D0 : sub(D0, 3, 4), q1 = k == SO3 ? D1 : sub(D1, 3, 4);
  V w = qmul(qconj(q0), q1);
  V r{2 * w[0], 2 * w[1], 2 * w[2]};
  if (k == SO3) return r;
  V3 t = qmat(qconj(q0)) * V3(D1[0], D1[1], D1[2]);
  return cat({t[0], t[1], t[2]}, r);
}
// D0 * exp(eps w)
V perturb(Kind k, const V& D, const V& w) {
  double e = sym::eps();
  V d;
  if (k == SO2) d = {1, e * w[0]};
  else if (k == SE2) d = {e * w[0], e * w[1], 1, e * w[2]};
  else if (k == SO3) d = {e * w[0] / 2, e * w[1] / 2, e * w[2] / 2, 1};
  else d = {e * w[0], e * w[1], e * w[2], e * w[3] / 2, e * w[4] / 2, e * w[5] / 2, 1};
  return mul(k, D, d);
}
V mulMV(const MX& m, const V& v) {
  V r(m.rows(), 0.);
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) r[i] = r[i] + m(i, j) * v[j];
  return r;
}
V logD(Kind k, const V& D) {
  V v = logBase(k, baseV(D));
  if (hasEps(D)) {
    V dv = mulMV(Jlog(k, baseV(D)), bodyVel(k, D));
    for (size_t i = 0; i < v.size(); ++i) v[i] = v[i] + sym::eps() * dv[i];
  }
  return v;
}
V expV(Kind k, const V& v) {
  V D = expBase(k, baseV(v));
  if (hasEps(v)) D = perturb(k, D, isIdent(k, D) ? epsV(v) : mulMV(inverse(Jlog(k, D)), epsV(v)));
  return D;
}
template <class T> V seg(const T& q, int i, int n) { V r; for (int k = 0; k < n; ++k) r.push_back(q[i + k]); return r; }
vector_t integrateS(const LiegroupSpace& s, const vector_t& q, const vector_t& v) {
  vector_t r = q;
  for (auto& b : blocks(s)) {
    if (b.k == RN) { for (int i = 0; i < b.nq; ++i) r[b.iq + i] = q[b.iq + i] + v[b.iv + i]; continue; }
    V p = mul(b.k, seg(q, b.iq, b.nq), expV(b.k, seg(v, b.iv, b.nv)));
    for (int i = 0; i < b.nq; ++i) r[b.iq + i] = p[i];
  }
  return r;
}
// e1 - e0
vector_t differenceS(const LiegroupSpace& s, const vector_t& q1, const vector_t& q0) {
  vector_t r(s.nv());
  for (auto& b : blocks(s)) {
    if (b.k == RN) { for (int i = 0; i < b.nq; ++i) r[b.iv + i] = q1[b.iq + i] - q0[b.iq + i]; continue; }
    V p = logD(b.k, mul(b.k, inv(b.k, seg(q0, b.iq, b.nq)), seg(q1, b.iq, b.nq)));
    for (int i = 0; i < b.nv; ++i) r[b.iv + i] = p[i];
  }
  return r;
}
template <DerivativeProduct side> void apply(const Blk& b, const MX& m, matrixOut_t J) {
  if (side == DerivativeTimesInput) { MX x = m * J.middleRows(b.iv, b.nv).eval(); J.middleRows(b.iv, b.nv) = x; }
  else { MX x = J.middleCols(b.iv, b.nv).eval() * m; J.middleCols(b.iv, b.nv) = x; }
}
typedef Eigen::Ref<const vector_t> CR;
typedef Eigen::Ref<vector_t> WR;
}  // namespace
#define EACH(M) M(vector_t) M(CR) M(WR)
#define PLUS(T) template <> LiegroupElement operator+ <T>(const LiegroupElementConstBase<T>& e, vectorIn_t v) { return LiegroupElement(integrateS(*e.space(), e.vector(), v), e.space()); }
EACH(PLUS)
#define LOG(T) template <> vector_t log<T>(const LiegroupElementConstBase<T>& e) { return differenceS(*e.space(), e.vector(), e.space()->neutral().vector()); }
EACH(LOG)
#define NORM(T) template <> bool checkNormalized<T>(const LiegroupElementConstBase<T>&, const value_type&) { return true; }
EACH(NORM)
#define MINUS(A, B) template <> vector_t operator- <A, B>(const LiegroupElementConstBase<A>& e1, const LiegroupElementConstBase<B>& e0) { return differenceS(*e1.space(), e1.vector(), e0.vector()); }
#define MINUS3(B) MINUS(vector_t, B) MINUS(CR, B) MINUS(WR, B)
EACH(MINUS3)
template <> LiegroupElementBase<vector_t>& LiegroupElementBase<vector_t>::operator+=(vectorIn_t v) { vector_t r = integrateS(*space_, value_, v); value_ = r; return *this; }
template <> LiegroupElementBase<WR>& LiegroupElementBase<WR>::operator+=(vectorIn_t v) { vector_t r = integrateS(*space_, value_, v); value_ = r; return *this; }
LiegroupElement LiegroupSpace::exp(vectorIn_t v) const { return LiegroupElement(integrateS(*this, neutral().vector(), v), weak_.lock()); }
void LiegroupSpace::interpolate(vectorIn_t q0, vectorIn_t q1, value_type u, vectorOut_t r) const {
  vector_t v = differenceS(*this, q1, q0) * u; vector_t x = integrateS(*this, q0, v); r = x;
}
#define DINT(S) \
template <> void LiegroupSpace::dIntegrate_dq<S>(LiegroupElementConstRef, vectorIn_t v, matrixOut_t J) const { \
  for (auto& b : blocks(*this)) if (b.k != RN) apply<S>(b, adInv(b.k, expV(b.k, seg(v, b.iv, b.nv))), J); } \
template <> void LiegroupSpace::dIntegrate_dv<S>(LiegroupElementConstRef, vectorIn_t v, matrixOut_t J) const { \
  for (auto& b : blocks(*this)) if (b.k != RN) apply<S>(b, inverse(Jlog(b.k, expV(b.k, seg(v, b.iv, b.nv)))), J); } \
template <> void LiegroupSpace::dDifference_dq1<S>(vectorIn_t q0, vectorIn_t q1, matrixOut_t J) const { \
  for (auto& b : blocks(*this)) if (b.k != RN) apply<S>(b, Jlog(b.k, mul(b.k, inv(b.k, seg(q0, b.iq, b.nq)), seg(q1, b.iq, b.nq))), J); } \
template <> void LiegroupSpace::dDifference_dq0<S>(vectorIn_t q0, vectorIn_t q1, matrixOut_t J) const { \
  for (auto& b : blocks(*this)) { if (b.k == RN) { apply<S>(b, -MX::Identity(b.nv, b.nv), J); continue; } \
    V D = mul(b.k, inv(b.k, seg(q0, b.iq, b.nq)), seg(q1, b.iq, b.nq)); \
    apply<S>(b, -(Jlog(b.k, D) * adInv(b.k, D)), J); } }
DINT(DerivativeTimesInput)
DINT(InputTimesDerivative)
}  // namespace pinocchio
}  // namespace hpp
#endif
