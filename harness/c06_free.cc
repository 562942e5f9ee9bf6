// C06: the solver moves only free variables and respects the bounds.
#include <hpp/constraints/solver/hierarchical-iterative.hh>
#include <hpp/constraints/solver/impl/hierarchical-iterative.hh>
#include <hpp/pinocchio/device.hh>
#include <hpp/pinocchio/extra-config-space.hh>
#include <pinocchio/multibody/model.hpp>
#include "expl.hh"
using namespace env;
namespace ls = hpp::constraints::solver::lineSearch;
namespace sat = hpp::constraints::solver::saturation;
typedef solver::HierarchicalIterative HI;
// stand-in for the computation of the descent direction: arbitrary
static int directions = 0;
namespace hpp { namespace constraints { namespace solver {
void HierarchicalIterative::computeDescentDirection() const {
  dqSmall_ = vec(nm("dq", directions++), freeVariables_.nbIndices());
  sigma_ = 1;
  expandDqSmall();
}
} } }
static HI::Status go(HI& h, vector_t& q, int which) {
  switch (which) {
    case 0: return h.solve(q, ls::Constant());
    case 1: return h.solve(q, ls::FixedSequence());
    case 2: return h.solve(q, ls::ErrorNormBased());
    default: return h.solve(q, ls::Backtracking());
  }
}
// free variables: any subset of the blocks
static void frozen(const Layout& L, int iters, int nls) {
  HI h(L.all);
  h.errorThreshold(sym::real("threshold", 0.01, 2)); h.maxIterations(iters);
  std::shared_ptr<LF> g(new LF("g", L.all, LiegroupSpace::R1()));
  h.add(Implicit::create(g, ComparisonTypes_t(1, Equality)), 0);
  std::vector<bool> fr(L.sp.size()); B free, frozen;
  for (size_t b = 0; b < fr.size(); ++b) { fr[b] = sym::flag(nm("free", b)); (fr[b] ? free : frozen).push_back(b); }
  if (free.empty()) return;
  h.freeVariables(Eigen::RowBlockIndices(L.vel(free)).indices());
  vector_t q0 = elem("q", L.all), q = q0;
  go(h, q, sym::choose("line_search", nls));
  for (int b : frozen) for (long j = 0; j < L.sp[b]->nq(); ++j) sym::check_eq(q[L.q[b] + j], q0[L.q[b] + j], "a variable that is not free is not changed", 1e-7);
}
SCENARIO(frozen_variables) { frozen(mixed(), 1, 4); }
SCENARIO(frozen_variables_2) { frozen(flat(2), 2, 3); }
SCENARIO(frozen_rotation) { frozen(Layout({LiegroupSpace::R1(), LiegroupSpace::SO3(), LiegroupSpace::SE3(), LiegroupSpace::SE2()}), 1, 2); }
// bounds
static void bounded(int n, int iters, int nls) {
  Layout L = flat(n);
  HI h(L.all);
  h.errorThreshold(sym::real("threshold", 0.01, 2)); h.maxIterations(iters);
  std::shared_ptr<UF> g(new UF("g", n, 1, range(0, n)));
  h.add(Implicit::create(g, ComparisonTypes_t(1, Equality)), 0);
  vector_t lo = vec("lo", n), up = vec("up", n), q0 = vec("q", n);
  for (int i = 0; i < n; ++i) { sym::assume_le(lo[i], q0[i]); sym::assume_le(q0[i], up[i]); }
  h.saturation(std::make_shared<sat::Bounds>(lo, up));
  B free, fix;
  for (int b = 0; b < n; ++b) (sym::flag(nm("free", b)) ? free : fix).push_back(b);
  if (free.empty()) return;
  h.freeVariables(Eigen::RowBlockIndices(L.vel(free)).indices());
  vector_t q = q0;
  go(h, q, sym::choose("line_search", nls));
  for (int b : fix) sym::check_eq(q[b], q0[b], "a variable that is not free is not changed");
  for (int b : free) sym::check(lo[b] <= q[b] && q[b] <= up[b], "a free variable stays inside its bounds");
}
SCENARIO_THOROUGH(frozen_variables_3) { frozen(flat(3), 2, 2); }
SCENARIO(bounds_1) { bounded(1, 2, 3); }
SCENARIO(bounds_2) { bounded(2, 1, 2); }
SCENARIO_THOROUGH(bounds_3) { bounded(3, 1, 1); }
SCENARIO(bounds_backtracking) {
  HI h(LiegroupSpace::Rn(1));
  h.errorThreshold(sym::real("threshold", 0.01, 2)); h.maxIterations(1);
  std::shared_ptr<UF> g(new UF("g", 1, 1, {0}));
  h.add(Implicit::create(g, ComparisonTypes_t(1, Equality)), 0);
  vector_t lo = vec("lo", 1), up = vec("up", 1), q = vec("q", 1);
  sym::assume_le(lo[0], q[0]); sym::assume_le(q[0], up[0]);
  h.saturation(std::make_shared<sat::Bounds>(lo, up));
  h.solve(q, ls::Backtracking());
  sym::check(lo[0] <= q[0] && q[0] <= up[0], "a free variable stays inside its bounds");
}
// saturate
static void checkSat(const vector_t& q, const vector_t& lo, const vector_t& up, const vector_t& out, const Eigen::VectorXi& s, const std::vector<int>& iv, int nv, bool ret) {
  bool any = false;
  std::vector<int> lower(nv, 0), upper(nv, 0);
  for (long i = 0; i < q.size(); ++i) {
    int d = q[i] <= lo[i] ? -1 : (q[i] >= up[i] ? 1 : 0);
    sym::check_eq(out[i], d < 0 ? lo[i] : d > 0 ? up[i] : q[i], "each coordinate is clamped to its bounds");
    if (d < 0) lower[iv[i]] = 1;
    if (d > 0) upper[iv[i]] = 1;
    if (d) any = true;
  }
  for (int j = 0; j < nv; ++j) {
    bool good = s[j] == 0 ? !lower[j] && !upper[j] : s[j] < 0 ? s[j] == -1 && lower[j] : s[j] == 1 && upper[j];
    sym::check(good, "saturated coordinates are reported");
  }
  sym::check(ret == any, "the report tells whether something was saturated");
}
static void symBounds(int n, vector_t& lo, vector_t& up) { lo = vec("lo", n); up = vec("up", n); for (int i = 0; i < n; ++i) sym::assume_lt(lo[i], up[i]); }
SCENARIO(saturate_bounds) {
  int n = 3; vector_t lo, up; symBounds(n, lo, up);
  sat::Bounds b(lo, up);
  vector_t q = vec("q", n), out = vec("dirty", n); Eigen::VectorXi s(n); for (int i = 0; i < n; ++i) s[i] = 5;
  bool r = b.saturate(q, out, s);
  checkSat(q, lo, up, out, s, {0, 1, 2}, n, r);
}
SCENARIO(saturate_bounds_in_place) {
  int n = 3; vector_t lo, up; symBounds(n, lo, up);
  sat::Bounds b(lo, up);
  vector_t q0 = vec("q", n), q = q0; Eigen::VectorXi s(n); s.setZero();
  bool r = b.saturate(q, q, s);
  checkSat(q0, lo, up, q, s, {0, 1, 2}, n, r);
}
SCENARIO(saturate_bounds_mapped) {
  int n = 4; vector_t lo, up; symBounds(n, lo, up);
  Eigen::VectorXi map(n); map << 0, 1, 1, 2;  // a planar rotation in the middle
  sat::Bounds b(lo, up, map);
  vector_t q = vec("q", n), out = vec("dirty", n); Eigen::VectorXi s(3); s << 5, 5, 5;
  bool r = b.saturate(q, out, s);
  checkSat(q, lo, up, out, s, {0, 1, 1, 2}, 3, r);
}
SCENARIO(saturate_nothing) {
  sat::Base b; vector_t q = vec("q", 2), out = vec("dirty", 2); Eigen::VectorXi s(2); s << 5, 5;
  sym::check(!b.saturate(q, out, s), "nothing saturated");
  for (int i = 0; i < 2; ++i) { sym::check_eq(out[i], q[i], "unchanged"); sym::check(s[i] == 0, "nothing reported"); }
}
SCENARIO(saturate_device) {
  namespace pin = ::pinocchio;
  hpp::pinocchio::DevicePtr_t dev = hpp::pinocchio::Device::create("r");
  auto& m = dev->model();
  std::vector<int> iv; int kind = sym::choose("robot", 3), extra = sym::choose("extra", 2), nv = 0;
  auto P = pin::SE3::Identity();
  if (kind == 0) { auto j = m.addJoint(0, pin::JointModelRX(), P, "a"); m.addJoint(j, pin::JointModelPZ(), P, "b"); iv = {0, 1}; nv = 2; }
  else if (kind == 1) { auto j = m.addJoint(0, pin::JointModelRUBX(), P, "a"); m.addJoint(j, pin::JointModelPZ(), P, "b"); iv = {0, 0, 1}; nv = 2; }
  else { auto j = m.addJoint(0, pin::JointModelSpherical(), P, "a"); iv = {0, 1, 2, 2}; nv = 3; }
  dev->createData();
  if (extra) { dev->setDimensionExtraConfigSpace(1); iv.push_back(nv++); }
  int n = iv.size(), nq = n - extra; vector_t lo, up; symBounds(n, lo, up);
  m.lowerPositionLimit = lo.head(nq); m.upperPositionLimit = up.head(nq);
  if (extra) { dev->extraConfigSpace().lower(0) = lo[nq]; dev->extraConfigSpace().upper(0) = up[nq]; }
  sat::Device b(dev);
  vector_t q = vec("q", n), out = vec("dirty", n); Eigen::VectorXi s(nv); for (int i = 0; i < nv; ++i) s[i] = 5;
  bool r = b.saturate(q, out, s);
  checkSat(q, lo, up, out, s, iv, nv, r);
}
SCENARIO(frozen_after_a_first_resolution) {
  Layout L = flat(2);
  HI h(L.all);
  h.errorThreshold(sym::real("threshold", 0.01, 2)); h.maxIterations(1);
  std::shared_ptr<UF> g(new UF("g", 2, 1, {0, 1}));
  h.add(Implicit::create(g, ComparisonTypes_t(1, Equality)), 0);
  int f0 = sym::choose("free_before", 3), f1 = sym::choose("free_after", 2);
  if (f0 < 2) h.freeVariables(segments_t(1, segment_t(f0, 1)));
  vector_t q = vec("q", 2); h.solve(q, ls::Constant());
  h.freeVariables(segments_t(1, segment_t(f1, 1)));
  vector_t p0 = vec("p", 2), p = p0; h.solve(p, ls::Constant());
  sym::check_eq(p[1 - f1], p0[1 - f1], "a variable that is not free is not changed");
}
