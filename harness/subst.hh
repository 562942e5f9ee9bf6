// Solvers mixing implicit and explicit constraints.
#pragma once
#include <hpp/constraints/solver/by-substitution.hh>
#include "expl.hh"
namespace env {
typedef solver::BySubstitution BS;
struct IC { std::shared_ptr<LF> f; ImplicitPtr_t c; ComparisonTypes_t ct; std::vector<bool> m; vector_t rhs; int prio; std::vector<int> blocks; };
// implicit constraint on some blocks of the configuration
inline IC mkI(const Layout& L, const std::string& n, int out, const std::vector<int>& blocks, int prio, const ComparisonTypes_t& ct, std::vector<bool> mask = std::vector<bool>()) {
  IC r; r.prio = prio; r.ct = ct; r.m = mask.empty() ? std::vector<bool>(out, true) : mask; r.blocks = blocks;
  r.f.reset(new LF(n, L.all, LiegroupSpace::Rn(out)));
  std::vector<int> q, v;
  for (int b : blocks) { for (long j = 0; j < L.sp[b]->nq(); ++j) q.push_back(L.q[b] + j); for (long j = 0; j < L.sp[b]->nv(); ++j) v.push_back(L.v[b] + j); }
  r.f->only(q, v);
  r.c = Implicit::create(r.f, ct, r.m);
  r.rhs.resize(out);
  for (int i = 0; i < out; ++i) r.rhs[i] = ct[i] == Equality ? sym::real(nm(n + ".r", i)) : 0;
  return r;
}
struct Mixed {
  Layout L; std::vector<IC> I; std::vector<EC> E; std::shared_ptr<BS> s;
  Mixed(const Layout& l) : L(l), s(new BS(l.all)) {}
  void build(bool explFirst) {
    if (explFirst) for (auto& e : E) s->add(e.c);
    for (auto& i : I) s->add(i.c, i.prio);
    if (!explFirst) for (auto& e : E) s->add(e.c);
    for (auto& e : E) e.rhs = symRhs(e, e.f->id + ".r");
  }
  void setRhs() {
    for (auto& i : I) sym::check(s->rightHandSide(i.c, i.rhs), "right-hand side accepted");
    for (auto& e : E) sym::check(s->rightHandSide(e.c, e.rhs), "right-hand side accepted");
  }
  vector_t explGap(const EC& c, const vector_t& q) const {
    LiegroupElement v = (*c.f)(L.get(q, c.in));
    vector_t r = LiegroupElement(L.get(q, c.out), L.space(c.out)) - v;
    r -= c.rhs; return r;
  }
  static double clip(ComparisonType t, double e, double thr) {
    if (t == Superior) return e < thr ? e - thr : 0;
    if (t == Inferior) return e > -thr ? e + thr : 0;
    return e;
  }
  vector_t implRes(const IC& c, const vector_t& q, double ineq) const {
    vector_t v = (*c.f)(q).vector(), e(v.size());
    for (long i = 0; i < v.size(); ++i) e[i] = c.m[i] ? clip(c.ct[i], v[i] - c.rhs[i], ineq) : 0;
    return e;
  }
  // implicit constraints in the order of the stacked vectors
  std::vector<const IC*> stackOrder() const { std::vector<const IC*> r; for (int p = 0; p < 4; ++p) for (auto& i : I) if (i.prio == p) r.push_back(&i); return r; }
};
}  // namespace env
