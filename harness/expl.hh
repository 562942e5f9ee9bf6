// Explicit constraint sets over a configuration space made of blocks
// R, SO(2), R, R (configuration variables 0 | 1-2 | 3 | 4, velocities 0 | 1 | 2 | 3).
#pragma once
#include <hpp/constraints/explicit-constraint-set.hh>
#include <hpp/constraints/explicit.hh>
#include <memory>
#include <set>
#include "env.hh"
namespace env {
typedef std::vector<int> B;  // list of blocks
struct Layout {
  std::vector<LiegroupSpacePtr_t> sp; std::vector<long> q, v; LiegroupSpacePtr_t all;
  Layout(const std::vector<LiegroupSpacePtr_t>& s) : sp(s) {
    long a = 0, b = 0; for (auto& x : s) { q.push_back(a); v.push_back(b); a += x->nq(); b += x->nv(); }
    all = space(range(0, s.size()));
  }
  LiegroupSpacePtr_t space(const B& b) const { LiegroupSpacePtr_t r = LiegroupSpace::empty(); for (int i : b) r = r * sp[i]; return r; }
  segments_t conf(const B& b) const { segments_t r; for (int i : b) add(r, q[i], sp[i]->nq()); return r; }
  segments_t vel(const B& b) const { segments_t r; for (int i : b) add(r, v[i], sp[i]->nv()); return r; }
  static void add(segments_t& r, long f, long n) { if (!r.empty() && r.back().first + r.back().second == f) r.back().second += n; else r.push_back(segment_t(f, n)); }
  vector_t get(const vector_t& x, const B& b) const { vector_t r(space(b)->nq()); long k = 0; for (int i : b) for (long j = 0; j < sp[i]->nq(); ++j) r[k++] = x[q[i] + j]; return r; }
};
inline Layout mixed() { return Layout({LiegroupSpace::R1(), LiegroupSpace::SO2(), LiegroupSpace::R1(), LiegroupSpace::R1()}); }
inline Layout flat(int n) { return Layout(std::vector<LiegroupSpacePtr_t>(n, LiegroupSpace::R1())); }
struct EC { B in, out; std::shared_ptr<LF> f; ExplicitPtr_t c; ComparisonTypes_t ct; vector_t rhs; };
inline EC mkE(const Layout& L, const std::string& n, const B& in, const B& out, const ComparisonTypes_t& ct) {
  EC e; e.in = in; e.out = out; e.ct = ct;
  e.f.reset(new LF(n, L.space(in), L.space(out)));
  e.c = Explicit::create(L.all, e.f, L.conf(in), L.conf(out), L.vel(in), L.vel(out), ct);
  return e;
}
inline ComparisonTypes_t cts(const std::string& n, const Layout& L, const B& out, bool vary) {
  ComparisonTypes_t r; long k = L.space(out)->nv();
  for (long i = 0; i < k; ++i) r.push_back(vary && sym::flag(nm(n, i)) ? EqualToZero : Equality);
  return r;
}
inline vector_t symRhs(const EC& e, const std::string& n) { vector_t r(e.ct.size()); for (long i = 0; i < r.size(); ++i) r[i] = e.ct[i] == Equality ? sym::real(nm(n, i)) : 0; return r; }
// the structures explored: (inputs -> output) per function
struct Str { std::vector<std::pair<B, B>> f; };
inline std::vector<Str> structures() {
  return {
    {{{{0}, {1}}, {{1, 0}, {2}}, {{2, 1}, {3}}}},   // chain through all variables
    {{{{0}, {3}}, {{3}, {2}}, {{2}, {1}}}},         // chain against the order of the variables
    {{{{0}, {1}}, {{0}, {2}}, {{2, 1}, {3}}}},      // two outputs joined
    {{{{3}, {1, 2}}, {{1}, {0}}}},                  // one function with two outputs
    {{{{}, {1}}, {{3, 1}, {0}}}},                   // constant function, inputs given in decreasing order
    {{{{1}, {0}}, {{2}, {3}}}},                     // independent functions
    {{{{0}, {1}}, {{0, 1, 2}, {3}}}},               // one input interval mixing free and computed variables
    {{{{0}, {2, 3}}, {{0, 3}, {1}}}},               // last output of a function with two outputs is an input
    {{{{3}, {2}}, {{1, 2, 3}, {0}}}},               // computed variable in the middle of an interval
  };
}
}  // namespace env
