// Shared helpers of the harnesses: user functions with symbolic coefficients,
// constraints built on them, and small matrix utilities.
#pragma once
#include <hpp/constraints/differentiable-function.hh>
#include <hpp/constraints/implicit.hh>
#include <hpp/pinocchio/liegroup-element.hh>
#include <hpp/pinocchio/liegroup-space.hh>
#include "sym.hh"
namespace env {
using namespace hpp::constraints;
typedef std::vector<double> V;
inline std::string nm(const std::string& a, long i) { return a + std::to_string(i); }
inline vector_t vec(const std::string& n, int k) { vector_t v(k); for (int i = 0; i < k; ++i) v[i] = sym::real(nm(n, i)); return v; }
inline vector_t vecB(const std::string& n, int k, double lo, double hi) { vector_t v(k); for (int i = 0; i < k; ++i) v[i] = sym::real(nm(n, i), lo, hi); return v; }
inline matrix_t mat(const std::string& n, int r, int c) { matrix_t m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = sym::real(n + std::to_string(i) + "_" + std::to_string(j)); return m; }
inline V toV(const vector_t& v) { return V(v.data(), v.data() + v.size()); }
inline vector_t fromV(const V& v) { vector_t r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template <class A, class B> void eqV(const A& a, const B& b, const std::string& l, double tol = 1e-6) {
  sym::check(a.size() == b.size(), l + " (size)");
  if (a.size() != b.size()) return;
  for (long i = 0; i < (long)a.size(); ++i) sym::check_eq(a[i], b[i], l, tol);
}
template <class A, class B> void eqM(const A& a, const B& b, const std::string& l, double tol = 1e-6) {
  sym::check(a.rows() == b.rows() && a.cols() == b.cols(), l + " (size)");
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (long i = 0; i < (long)a.rows(); ++i) for (long j = 0; j < (long)a.cols(); ++j) sym::check_eq(a(i, j), b(i, j), l, tol);
}
// a user-defined function with uninterpreted value and Jacobian; depends on the
// parameters marked active only
struct UF : public DifferentiableFunction {
  std::string id;
  UF(const std::string& n, int in, int out, const std::vector<int>& active) : DifferentiableFunction(in, in, out, n), id(n) {
    activeParameters_.setConstant(false);
    activeDerivativeParameters_.setConstant(false);
    for (int a : active) activeParameters_[a] = activeDerivativeParameters_[a] = true;
  }
  UF(const std::string& n, int in, const LiegroupSpacePtr_t& out) : DifferentiableFunction(in, in, out, n), id(n) {}
  V args(vectorIn_t x) const { V r; for (long i = 0; i < x.size(); ++i) if (activeParameters_[i]) r.push_back(x[i]); return r; }
  virtual vector_t at(vectorIn_t x) const {
    vector_t r(outputSize()); V a = args(x);
    for (long i = 0; i < r.size(); ++i) r[i] = sym::ufq(nm(id + ".v", i), a);
    return r;
  }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const { r.vector() = at(x); }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const {
    V a = args(x);
    for (long i = 0; i < J.rows(); ++i) for (long j = 0; j < J.cols(); ++j)
      J(i, j) = activeDerivativeParameters_[j] ? sym::ufq(nm(nm(id + ".j", i) + "_", j), a) : 0;
  }
  bool isEqual(const DifferentiableFunction& o) const { const UF* u = dynamic_cast<const UF*>(&o); return u && u->id == id && DifferentiableFunction::isEqual(o); }
};
// a user-defined function  f_i(x) = a_i + sum_j b_ij x_j + sum_j c_ij x_j^2  with
// symbolic coefficients: value and Jacobian at a point are arbitrary
struct PF : public UF {
  bool quad; std::vector<std::vector<double>> a, b, c;
  PF(const std::string& n, int in, int out, const std::vector<int>& active, bool quad_ = false) : UF(n, in, out, active), quad(quad_) {
    std::vector<bool> on(in, false); for (int k : active) on[k] = true;
    for (int i = 0; i < out; ++i) {
      a.push_back({sym::real(nm(n + ".a", i))}); b.push_back({}); c.push_back({});
      for (int j = 0; j < in; ++j) {
        b[i].push_back(on[j] ? sym::real(nm(nm(n + ".b", i) + "_", j)) : 0);
        c[i].push_back(on[j] && quad ? sym::real(nm(nm(n + ".c", i) + "_", j)) : 0);
      }
    }
  }
  vector_t at(vectorIn_t x) const {
    vector_t r(outputSize());
    for (long i = 0; i < r.size(); ++i) {
      double s = a[i][0];
      for (long j = 0; j < x.size(); ++j) s = s + b[i][j] * x[j] + (quad ? c[i][j] * x[j] * x[j] : 0);
      r[i] = s;
    }
    return r;
  }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const {
    for (long i = 0; i < J.rows(); ++i) for (long j = 0; j < J.cols(); ++j) J(i, j) = b[i][j] + (quad ? 2 * c[i][j] * x[j] : 0);
  }
};
// an element of a Lie group with arbitrary vector parts and arbitrary rotations
inline vector_t elem(const std::string& n, const LiegroupSpacePtr_t& s) {
  vector_t r(s->nq());
  long iq = 0;
  for (std::size_t b = 0; b < s->liegroupTypes().size(); ++b) {
    int w = s->liegroupTypes()[b].which();
    long nq = s->nq(b), rot = w == 7 || w == 8 || w == 10 ? 2 : w == 6 || w == 9 || w == 11 ? 4 : 0;
    for (long i = 0; i < nq - rot; ++i) r[iq + i] = sym::real(nm(n, iq + i));
    if (rot) sym::unit(nm(n, iq) + "u", &r[iq + nq - rot], rot);
    iq += nq;
  }
  return r;
}
// a user-defined function between Lie groups whose value and Jacobian at every
// point are arbitrary (and consistent to first order)
struct LF : public DifferentiableFunction {
  std::string id; LiegroupSpacePtr_t in;
  struct At { vector_t x, v; matrix_t J; };
  mutable std::vector<At> tab;
  LF(const std::string& n, const LiegroupSpacePtr_t& i, const LiegroupSpacePtr_t& o) : DifferentiableFunction(i->nq(), i->nv(), o, n), id(n), in(i) {}
  // depends only on the given (configuration, velocity) variables
  LF& only(const std::vector<int>& q, const std::vector<int>& v) {
    activeParameters_.setConstant(false); activeDerivativeParameters_.setConstant(false);
    for (int i : q) activeParameters_[i] = true;
    for (int i : v) activeDerivativeParameters_[i] = true;
    return *this;
  }
  At& at(vectorIn_t x) const {
    for (auto& t : tab) {
      bool same = true;
      for (long i = 0; same && i < x.size(); ++i) if (activeParameters_[i]) {
        double d = sym::base(x[i]) - t.x[i];
        same = sym::symbolic() ? sym::zero(d) : std::fabs(d) < 1e-4;
      }
      if (same) return t;
    }
    At t; std::string k = id + (tab.empty() ? "" : "@" + std::to_string(tab.size()));
    t.x = x; for (long i = 0; i < x.size(); ++i) t.x[i] = sym::base(x[i]);
    t.v = elem(k + ".v", outputSpace());
    t.J.resize(outputDerivativeSize(), inputDerivativeSize());
    for (long i = 0; i < t.J.rows(); ++i) for (long j = 0; j < t.J.cols(); ++j)
      t.J(i, j) = activeDerivativeParameters_[j] ? sym::real(k + ".j" + std::to_string(i) + "_" + std::to_string(j)) : 0;
    tab.push_back(t);
    return tab.back();
  }
  void impl_compute(LiegroupElementRef r, vectorIn_t x) const {
    At& t = at(x);
    bool same = true;
    for (long i = 0; i < x.size(); ++i) if (activeParameters_[i] && !sym::zero(x[i] - t.x[i])) same = false;
    if (same) { r.vector() = t.v; return; }
    vector_t d = LiegroupElement(vector_t(x), in) - LiegroupElement(t.x, in);
    vector_t dv(t.J.rows());
    for (long i = 0; i < dv.size(); ++i) { double a = 0; for (long j = 0; j < d.size(); ++j) a = a + t.J(i, j) * d[j]; dv[i] = a; }
    r.vector() = (LiegroupElement(t.v, outputSpace()) + dv).vector();
  }
  void impl_jacobian(matrixOut_t J, vectorIn_t x) const { J = at(x).J; }
  bool isEqual(const DifferentiableFunction& o) const { return this == &o; }
};
inline std::vector<int> range(int a, int b) { std::vector<int> r; for (int i = a; i < b; ++i) r.push_back(i); return r; }
inline ComparisonType comp(const std::string& n) { static const ComparisonType t[] = {Equality, EqualToZero, Superior, Inferior}; return t[sym::choose(n, 4)]; }
}  // namespace env
