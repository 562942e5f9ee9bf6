// C11: Jacobian of an explicit constraint set.
#include <algorithm>
#include "expl.hh"
using namespace env;
static void run(const Layout& L, const Str& st, bool order, bool withRhs) {
  std::vector<EC> e;
  for (size_t i = 0; i < st.f.size(); ++i) e.push_back(mkE(L, std::string(1, "fgh"[i]), st.f[i].first, st.f[i].second, cts("", L, st.f[i].second, false)));
  if (order) {
    int n = e.size(), np = n == 3 ? 6 : n == 2 ? 2 : 1;
    std::vector<int> p = range(0, n);
    for (int k = sym::choose("order", np); k > 0; --k) std::next_permutation(p.begin(), p.end());
    std::vector<EC> t; for (int i : p) t.push_back(e[i]); e = t;
  }
  ExplicitConstraintSet s(L.all);
  for (auto& c : e) s.add(c.c);
  // a right-hand side is zero or not tiny (the code neglects what is below 1e-12)
  if (withRhs) for (auto& c : e) { vector_t r = symRhs(c, c.f->id + ".r"); sym::assume_le(0.01, r[0]); s.rightHandSide(c.c, r); }
  vector_t q = elem("q", L.all);
  vector_t q0 = q; s.solve(q0);
  if (!sym::flag("last_solved_here")) { vector_t o = elem("o", L.all); s.solve(o); }
  matrix_t J = mat("dirty", L.all->nv(), L.all->nv());
  s.jacobian(J, q0);
  // direction: any velocity (components along outputs do not matter)
  vector_t v = vec("v", L.all->nv());
  std::vector<double> d = sym::derivative([&](double t) {
    vector_t x = (LiegroupElement(q, L.all) + vector_t(t * v)).vector();
    s.solve(x);
    vector_t dx = LiegroupElement(x, L.all) - LiegroupElement(q0, L.all);
    return toV(dx);
  });
  vector_t ref = J * v;
  for (long i = 0; i < ref.size(); ++i) sym::check_eq(ref[i], d[i], "Jacobian times velocity is the derivative of the solution", 1e-4);
  matrix_t K = J;
  auto view = s.jacobianNotOutToOut(K);
  matrix_t sub = view;
  long r = 0;
  for (auto& a : s.outDers().rows()) for (long i = a.first; i < a.first + a.second; ++i, ++r) {
    long c = 0;
    for (auto& b : s.notOutDers().cols()) for (long j = b.first; j < b.first + b.second; ++j, ++c) sym::check_eq(sub(r, c), J(i, j), "block of outputs with respect to the other variables");
  }
}
SCENARIO(every_order) { auto st = structures(); run(mixed(), st[sym::choose("structure", st.size())], true, false); }
SCENARIO(with_rhs) { auto st = structures(); run(mixed(), st[sym::choose("structure", st.size())], false, true); }
// outputs that are rotations: f: R -> SO(3), g: SO(3) -> R
SCENARIO(rotation_output) {
  Layout L({LiegroupSpace::R1(), LiegroupSpace::SO3(), LiegroupSpace::R1()});
  run(L, Str{{{{0}, {1}}, {{1, 0}, {2}}}}, true, sym::flag("rhs"));
}
SCENARIO(rotation_chain) {
  Layout L({LiegroupSpace::SO3(), LiegroupSpace::R1(), LiegroupSpace::SO3()});
  run(L, Str{{{{0}, {2}}, {{2}, {1}}}}, true, sym::flag("rhs"));
}
