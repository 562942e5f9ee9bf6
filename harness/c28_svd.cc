// C28: pseudo-inverse and projectors from any singular value decomposition.
#include "env.hh"
#include <hpp/constraints/svd.hh>
using namespace env;
namespace {
typedef Eigen::MatrixXd MX;
struct AnySVD {  // what the helpers read from a decomposition
  typedef matrix_t MatrixType; typedef matrix_t MatrixUType; typedef matrix_t MatrixVType; typedef vector_t SingularValuesType;
  matrix_t U, V; vector_t s; long r;
  const matrix_t& matrixU() const { return U; }
  const matrix_t& matrixV() const { return V; }
  const vector_t& singularValues() const { return s; }
  long rank() const { return r; }
  long nonzeroSingularValues() const { long n = 0; for (long i = 0; i < s.size(); ++i) if (!(s[i] == 0)) ++n; return n; }
  long rows() const { return U.rows(); }
  long cols() const { return V.rows(); }
  double threshold() const { return 1e-5; }
  bool computeFullU() const { return U.rows() == U.cols(); }
  bool computeFullV() const { return V.rows() == V.cols(); }
  bool computeU() const { return true; }
  bool computeV() const { return true; }
};
// arbitrary orthogonal matrix of order up to 3, arbitrary rotations of planes for 4
matrix_t orthogonal(const char* n, int k, bool flip) {
  matrix_t Q = matrix_t::Identity(k, k);
  if (k == 2) { double u[2]; sym::unit(n, u, 2); Q << u[0], -u[1], u[1], u[0]; }
  if (k == 3) { double u[4]; sym::unit(n, u, 4); double x = u[0], y = u[1], z = u[2], w = u[3];
    Q << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y); }
  if (k == 4) for (int i = 0; i < 3; ++i) { double u[2]; sym::unit(nm(n, i), u, 2); matrix_t G = matrix_t::Identity(4, 4); int a = i, b = i == 2 ? 0 : i + 2; if (b > 3) b = 3; G(a, a) = u[0]; G(a, b) = -u[1]; G(b, a) = u[1]; G(b, b) = u[0]; matrix_t P = Q * G; Q = P; }
  if (flip) for (int i = 0; i < k; ++i) Q(i, 0) = -Q(i, 0);
  return Q;
}
struct Case {
  long m, n, k; AnySVD d; matrix_t A, U1, V1; bool full;
  Case() {
    static const int sz[][2] = {{1, 1}, {1, 3}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {3, 3}, {4, 2}, {2, 4}};
    int c = sym::choose("size", 9); m = sz[c][0]; n = sz[c][1]; k = std::min(m, n);
    d.r = sym::choose("rank", k + 1); full = sym::flag("full");
    matrix_t U = orthogonal("U", m, sym::flag("reflection")), V = orthogonal("V", n, false);
    d.s.resize(k);
    for (long i = 0; i < k; ++i) { d.s[i] = i < d.r ? sym::real(nm("s", i), 0.125, 8) : 0; if (i && i < d.r) sym::assume_le(d.s[i], d.s[i - 1]); }
    // a decomposition may leave singular values below its threshold: they do not count in the rank
    if (d.r < k && sym::flag("negligible")) for (long i = d.r; i < k; ++i) d.s[i] = sym::real(nm("e", i), 0, 1e-6);
    d.U = full ? U : matrix_t(U.leftCols(k)); d.V = full ? V : matrix_t(V.leftCols(k));
    U1 = U.leftCols(d.r); V1 = V.leftCols(d.r);
    matrix_t S = matrix_t::Zero(d.r, d.r); for (long i = 0; i < d.r; ++i) S(i, i) = d.s[i];
    A = matrix_t::Zero(m, n); if (d.r) A = U1 * S * V1.transpose();
  }
};
}  // namespace
SCENARIO(pseudo_inverse) {
  Case c; matrix_t P = mat("dirty", c.n, c.m);
  pseudoInverse<AnySVD>(c.d, P);
  if (c.m < 4 && c.n < 4) {
  matrix_t AP = c.A * P, PA = P * c.A;
  eqM(AP * c.A, c.A, "A P A = A"); eqM(PA * P, P, "P A P = P"); eqM(AP, AP.transpose(), "A P is symmetric"); eqM(PA, PA.transpose(), "P A is symmetric");
  }
  for (long i = 0; i < c.n; ++i) for (long j = 0; j < c.m; ++j) { double e = 0; for (long r = 0; r < c.d.r; ++r) e = e + c.V1(i, r) * c.U1(j, r) / c.d.s[r]; sym::check_eq(P(i, j), e, "V1 S^-1 U1^T"); }
}
static void projector(const matrix_t& P, const matrix_t& B, bool onto, const matrix_t& A, const char* l) {
  long n = P.rows(); matrix_t E = matrix_t::Zero(n, n); if (!onto) E.setIdentity();
  for (long r = 0; r < B.cols(); ++r) for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) E(i, j) = onto ? E(i, j) + B(i, r) * B(j, r) : E(i, j) - B(i, r) * B(j, r);
  eqM(P, E, l);
  eqM(P * A, onto ? A : matrix_t(matrix_t::Zero(A.rows(), A.cols())), l);
}
SCENARIO(projectors) {
  Case c; int k = sym::choose("projector", 4); matrix_t At = c.A.transpose();
  matrix_t P = mat("dirty", k < 2 ? c.n : c.m, k < 2 ? c.n : c.m);
  if (k == 0) { projectorOnSpan<AnySVD>(c.d, P); projector(P, c.V1, true, At, "projector on the rows"); }
  if (k == 1) { projectorOnKernel<AnySVD>(c.d, P, c.full && sym::flag("full_V")); projector(P, c.V1, false, At, "projector on the kernel"); }
  if (k == 2) { projectorOnSpanOfInv<AnySVD>(c.d, P); projector(P, c.U1, true, c.A, "projector on the columns"); }
  if (k == 3) { projectorOnKernelOfInv<AnySVD>(c.d, P, c.full && sym::flag("full_U")); projector(P, c.U1, false, c.A, "projector on the orthogonal of the columns"); }
}
SCENARIO(blocks) {
  Case c; long r = c.d.r; 
  auto same = [](const matrix_t& a, const matrix_t& b) { sym::check(a.rows() == b.rows() && a.cols() == b.cols(), "columns of the decomposition"); eqM(a, b, "columns of the decomposition"); };
  same(getU1<AnySVD>(c.d, r), c.d.U.leftCols(r)); same(getV1<AnySVD>(c.d, r), c.d.V.leftCols(r));
  same(getU2<AnySVD>(c.d, r), c.d.U.rightCols(c.d.U.cols() - r)); same(getV2<AnySVD>(c.d, r), c.d.V.rightCols(c.d.V.cols() - r));
}
