// C02: block views of matrices with symbolic entries.
#include <hpp/constraints/matrix-view.hh>
#include "sym.hh"
using namespace Eigen;
typedef BlockIndex::segment_t seg;
typedef BlockIndex::segments_t segs;
static const int R = 4, C = 4;
static MatrixXd mat(const char* n, int r, int c) {
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = sym::real(std::string(n) + std::to_string(i) + "_" + std::to_string(j));
  return m;
}
// interval lists over [0,4): normalised, unnormalised, reversed order, empty
static segs pick(const char* n) {
  static const std::vector<segs> all = {
    {}, {seg(0, 1)}, {seg(3, 1)}, {seg(0, 4)}, {seg(1, 2)}, {seg(0, 1), seg(2, 2)}, {seg(1, 1), seg(3, 1)},
    {seg(2, 2), seg(0, 1)}, {seg(3, 1), seg(1, 1), seg(0, 1)}, {seg(0, 2), seg(3, 1)}, {seg(0, 1), seg(1, 1), seg(3, 1)}};
  return all[sym::choose(n, all.size())];
}
static std::vector<int> idx(const segs& s) { std::vector<int> v; for (auto& e : s) for (long k = 0; k < e.second; ++k) v.push_back(e.first + k); return v; }
static std::vector<int> allIdx(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
template <class M> static void eqM(const M& a, const MatrixXd& ref, const std::string& l) {
  sym::check(a.rows() == ref.rows() && a.cols() == ref.cols(), l + ": shape");
  if (a.rows() != ref.rows() || a.cols() != ref.cols()) return;
  for (int i = 0; i < ref.rows(); ++i) for (int j = 0; j < ref.cols(); ++j) sym::check_eq(a(i, j), ref(i, j), l);
}
static MatrixXd sel(const MatrixXd& m, const std::vector<int>& r, const std::vector<int>& c) {
  MatrixXd o(r.size(), c.size());
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) o(i, j) = m(r[i], c[j]);
  return o;
}
static MatrixXd put(MatrixXd m, const std::vector<int>& r, const std::vector<int>& c, const MatrixXd& v) {
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) m(r[i], c[j]) = v(i, j);
  return m;
}
template <class B> static void ops(const B& b, const std::vector<int>& r, const std::vector<int>& c) {
  int ru = r.size(), cu = c.size();
  MatrixXd m = mat("m", R, C), n = mat("n", R, C), v = mat("v", ru, cu);
  MatrixXd ref = sel(m, r, c);
  eqM(b.rview(m).eval(), ref, "reading a view");
  eqM(b.lview(m).eval(), ref, "reading a writable view");
  MatrixXd out; b.rview(m).writeTo(out);
  eqM(out, ref, "writing a view to a matrix resizes and copies");
  MatrixXd asg = mat("o", 1, 2); asg = b.rview(m);
  eqM(asg, ref, "assigning a view to a matrix");
  { MatrixXd x = m, k = m; b.lview(x) = v; eqM(x, put(k, r, c, v), "writing a matrix through a view"); }
  { MatrixXd x = n; b.lview(x) = b.rview(m); eqM(x, put(n, r, c, ref), "writing a view through a view"); }
  { MatrixXd x = n; b.lview(x).setZero(); eqM(x, put(n, r, c, MatrixXd::Zero(ru, cu)), "setting a view to zero"); }
  if (ru && cu) {
    { Ref<const MatrixXd> rr(b.rview(m)); eqM(rr, ref, "reference built from a view"); }
    { MatrixXd x(ru, cu); x = v + b.rview(m); eqM(x, v + ref, "matrix plus view"); }
    { MatrixXd x(ru, cu); x = b.rview(m) - v; eqM(x, ref - v, "view minus matrix"); }
    { MatrixXd x(ru, cu); x = v - b.rview(m); eqM(x, v - ref, "matrix minus view"); }
    { MatrixXd x(ru, cu); x = b.rview(m) - b.rview(n); eqM(x, ref - sel(n, r, c), "view minus view, same selection"); }
    eqM(b.rview(m + n).eval(), ref + sel(n, r, c), "view of an expression");
    if (ru * cu <= 2) {
      bool z = b.rview(m).isZero(0), zr = true;
      for (int i = 0; i < ru; ++i) for (int j = 0; j < cu; ++j) zr = zr && sym::same(ref(i, j), 0);
      sym::check(z == zr, "zero test of a view");
    }
  }
}
SCENARIO(rows_only) { segs r = pick("r"); MatrixBlocks<false, true> b; for (auto& e : r) b.addRow(e.first, e.second); ops(b, idx(r), allIdx(C)); }
SCENARIO(cols_only) { segs r = pick("c"); MatrixBlocks<true, false> b; for (auto& e : r) b.addCol(e.first, e.second); ops(b, allIdx(R), idx(r)); }
SCENARIO(rows_and_cols) { segs r = pick("r"), c = pick("c"); MatrixBlocks<false, false> b(r, c); ops(b, idx(r), idx(c)); }
SCENARIO(transposed_blocks) {
  segs r = pick("r"), c = pick("c");
  MatrixBlocks<false, false> b(r, c);
  MatrixXd m = mat("m", C, R);
  eqM(b.transpose().rview(m).eval(), sel(m, idx(c), idx(r)), "transposed selection");
  eqM(b.keepRows().rview(m).eval(), sel(m, idx(r), allIdx(R)), "rows kept only");
  eqM(b.keepCols().rview(m).eval(), sel(m, allIdx(C), idx(c)), "columns kept only");
  MatrixBlocks<false, true> rr(r); MatrixBlocks<true, false> cc(c);
  eqM(MatrixBlocksRef<>(rr, cc).rview(m).eval(), sel(m, idx(r), idx(c)), "selection built from rows and columns");
  eqM(rr.transpose().rview(m).eval(), sel(m, allIdx(C), idx(r)), "transposed row selection");
  MatrixXd v = mat("v", idx(c).size(), idx(r).size()), x = m;
  b.transpose().lview(x) = v;
  eqM(x, put(m, idx(c), idx(r), v), "writing through a transposed selection");
}
SCENARIO(vectors) {
  segs r = pick("r");
  MatrixBlocks<false, true> b; for (auto& e : r) b.addRow(e.first, e.second);
  VectorXd q(4), w(4); std::vector<int> i = idx(r);
  for (int k = 0; k < 4; ++k) { q[k] = sym::real("q" + std::to_string(k)); w[k] = sym::real("w" + std::to_string(k)); }
  VectorXd e = b.rview(q);
  eqM(e, sel(q, i, {0}), "reading entries of a vector");
  VectorXd x = w, val(i.size());
  for (size_t k = 0; k < i.size(); ++k) val[k] = sym::real("v" + std::to_string(k));
  b.lview(x) = val;
  eqM(x, put(w, i, {0}, val), "writing entries of a vector");
  sym::check(b.nbRows() == (long)i.size() && b.nbIndices() == (long)i.size(), "number of selected rows");
}
// two selections with the same block lengths at different places
SCENARIO(two_selections) {
  static const std::vector<std::pair<segs, segs>> prs = {
    {{seg(0, 2)}, {seg(2, 2)}}, {{seg(0, 1), seg(2, 2)}, {seg(3, 1), seg(0, 2)}}, {{seg(1, 1)}, {seg(3, 1)}}, {{seg(0, 1), seg(2, 1)}, {seg(1, 1), seg(3, 1)}}};
  auto pr = prs[sym::choose("p", prs.size())], pc = prs[sym::choose("q", prs.size())];
  MatrixBlocks<false, false> b1(pr.first, pc.first), b2(pr.second, pc.second);
  MatrixXd m = mat("m", R, C), n = mat("n", R, C);
  MatrixXd r1 = sel(m, idx(pr.first), idx(pc.first)), r2 = sel(n, idx(pr.second), idx(pc.second));
  MatrixXd x(r1.rows(), r1.cols());
  x = b1.rview(m) + b2.rview(n);
  eqM(x, r1 + r2, "view plus view, different selections");
  MatrixXd y = n; b2.lview(y) = b1.rview(m);
  eqM(y, put(n, idx(pr.second), idx(pc.second), r1), "writing a view through a different view");
  MatrixBlocks<false, true> p1(pr.first), p2(pr.second);
  MatrixXd z(r1.rows(), C); z = p1.rview(m) - p2.rview(n);
  eqM(z, sel(m, idx(pr.first), allIdx(C)) - sel(n, idx(pr.second), allIdx(C)), "row view minus row view, different selections");
}
SCENARIO(sub_selection) {
  segs r = pick("r"), c = pick("c");
  if (r.empty() || c.empty()) return;
  MatrixBlocks<false, false> b(r, c);
  MatrixXd m = mat("m", R, C);
  std::vector<int> ri = idx(r), ci = idx(c);
  int i0 = sym::choose("i", ri.size()), ni = 1 + sym::choose("ni", ri.size() - i0), j0 = sym::choose("j", ci.size()), nj = 1 + sym::choose("nj", ci.size() - j0);
  std::vector<int> rs(ri.begin() + i0, ri.begin() + i0 + ni), cs(ci.begin() + j0, ci.begin() + j0 + nj);
  eqM(b.block(i0, j0, ni, nj).rview(m).eval(), sel(m, rs, cs), "sub-block of a selection");
  if (j0 == 0 && nj == 1) eqM(b.middleRows(i0, ni).rview(m).eval(), sel(m, rs, ci), "rows of a selection");
  if (i0 == 0 && ni == 1) eqM(b.middleCols(j0, nj).rview(m).eval(), sel(m, ri, cs), "columns of a selection");
}
// selections edited several times, copied and assigned
template <class B> static void same(const B& b, const std::vector<int>& r, const std::vector<int>& c, const std::string& l) {
  MatrixXd m = mat("m", R, C);
  eqM(b.rview(m).eval(), sel(m, r, c), l);
}
static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
SCENARIO(edited) {
  segs r = pick("r"), s = pick("s");
  std::vector<int> ri = idx(r), si = idx(s), all = ri; all.insert(all.end(), si.begin(), si.end());
  MatrixBlocks<false, true> rb; MatrixBlocks<true, false> cb; MatrixBlocks<false, false> bb;
  for (auto& e : r) { rb.addRow(e.first, e.second); cb.addCol(e.first, e.second); bb.addRow(e.first, e.second); bb.addCol(e.first, e.second); }
  MatrixBlocks<false, true> rcopy(rb); MatrixBlocks<true, false> ccopy(cb); MatrixBlocks<false, false> bcopy(bb);
  bool clear = sym::choose("clear", 2);
  if (clear) { rb.clearRows(); cb.clearCols(); bb.clearCols(); bb.clearRows(); all = si; sym::check(rb.nbIndices() == 0 && cb.nbIndices() == 0, "a cleared selection is empty"); }
  for (auto& e : s) { rb.addRow(e.first, e.second); cb.addCol(e.first, e.second); bb.addRow(e.first, e.second); bb.addCol(e.first, e.second); }
  sym::check(rb.nbIndices() == (long)all.size() && cb.nbIndices() == (long)all.size() && bb.nbRows() == (long)all.size() && bb.nbCols() == (long)all.size(), "number of selected indices");
  same(rb, all, allIdx(C), "edited row selection"); same(cb, allIdx(R), all, "edited column selection"); same(bb, all, all, "edited selection");
  rb.updateRows<true, true, true>(); cb.updateIndices<true, true, true>(); bb.updateRows<true, true, true>(); bb.updateCols<true, true, true>();
  std::vector<int> so = sorted(all);
  same(rb, so, allIdx(C), "normalised row selection"); same(cb, allIdx(R), so, "normalised column selection"); same(bb, so, so, "normalised selection");
  same(rcopy, ri, allIdx(C), "a copy is not affected"); same(ccopy, allIdx(R), ri, "a copy is not affected"); same(bcopy, ri, ri, "a copy is not affected");
  rcopy = rb; ccopy = cb; bcopy = bb;
  same(rcopy, so, allIdx(C), "assigned row selection"); same(ccopy, allIdx(R), so, "assigned column selection"); same(bcopy, so, so, "assigned selection");
  sym::check(bcopy.nbRows() == (long)so.size() && bcopy.nbCols() == (long)so.size(), "number of selected indices");
}
SCENARIO(one_block) {
  int a = sym::choose("start", 4), n = 1 + sym::choose("size", 4 - a);
  std::vector<int> v; for (int k = 0; k < n; ++k) v.push_back(a + k);
  same(MatrixBlocks<false, false>(a, n), v, v, "block built from start and size"); same(MatrixBlocks<false, true>(a, n), v, allIdx(C), "rows built from start and size"); same(MatrixBlocks<true, false>(a, n), allIdx(R), v, "columns built from start and size");
  same(MatrixBlocks<false, false>(seg(a, n)), v, v, "block built from an interval"); same(MatrixBlocks<false, true>(seg(a, n)), v, allIdx(C), "rows built from an interval"); same(MatrixBlocks<true, false>(seg(a, n)), allIdx(R), v, "columns built from an interval");
}
