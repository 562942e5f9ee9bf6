// C20: convex shapes.
#include "robot.hh"
#include <hpp/constraints/convex-shape.hh>
using namespace env;
typedef Eigen::Matrix<double, 2, 1> V2;
namespace {
double cross2(const V2& a, const V2& b) { return a[0] * b[1] - a[1] * b[0]; }
struct Shape {
  std::vector<V2> p; matrix3_t R; vector3_t t;  // plane: columns 0 and 1 of R through t, normal: column 2
  std::vector<vector3_t> pts() const { std::vector<vector3_t> r; for (auto& x : p) r.push_back(at(x)); return r; }
  vector3_t at(const V2& x) const { return t + R.col(0) * x[0] + R.col(1) * x[1]; }
  V2 in(const vector3_t& x) const { vector3_t d = x - t; return V2(R.col(0).dot(d), R.col(1).dot(d)); }
};
double pos(const char* n) { double x = sym::real(n, 0.25, 4); return x; }
// general: arbitrary triangles and convex quadrangles; otherwise families with at most one irrational length
Shape shape(bool general, int rots, bool forDist = false) {
  Shape s; int r = sym::choose("plane", rots); s.R = rotQ(quatR(r == 0 ? 2 : r == 1 ? 4 : 0)); s.t = v3("t");
  double a = pos("a");
  if (general) {
    double b = sym::real("b"), c = pos("c");
    s.p = {V2(0, 0), V2(a, 0), V2(b, c)};
    if (sym::flag("quadrangle")) {
      double d = sym::real("d"), e = sym::real("e"); s.p.push_back(V2(d, e));
      for (int i = 1; i < 4; ++i) { V2 u = s.p[(i + 1) % 4] - s.p[i], v = s.p[(i + 2) % 4] - s.p[(i + 1) % 4]; sym::assume_lt(0.1, cross2(u, v)); }
    }
  } else switch (sym::choose("family", 4)) {
    case 0: { double c = pos("c"); s.p = {V2(0, 0), V2(a, 0), V2(a, c), V2(0, c)}; break; }
    case 1: s.p = {V2(0, 0), V2(4 * a, 0), V2(0, 3 * a)}; break;
    case 2: s.p = {V2(-3, 0), V2(3, 0), V2(0, 4)}; break;  // sides of rational length
    default: s.p = {V2(0, 0), V2(8, 0), V2(5, 4), V2(3, 4)}; break;  // trapezium
  }
  int first = sym::choose("first", forDist ? 1 : 2);  // the same polygon from another vertex
  std::rotate(s.p.begin(), s.p.begin() + first, s.p.end());
  return s;
}
bool inside(const Shape& s, const V2& x) { bool r = true; size_t n = s.p.size(); for (size_t i = 0; i < n; ++i) if (cross2(V2(s.p[(i + 1) % n] - s.p[i]), V2(x - s.p[i])) < 0) r = false; return r; }
// squared distance to the boundary
double boundary2(const Shape& s, const V2& x) {
  double best = 0; size_t n = s.p.size();
  for (size_t i = 0; i < n; ++i) {
    V2 u = s.p[(i + 1) % n] - s.p[i], w = x - s.p[i]; double c = u.dot(w), l = u.dot(u), d;
    if (c <= 0) d = w.dot(w); else if (l <= c) { V2 z = w - u; d = z.dot(z); } else { double k = cross2(u, w); d = k * k / l; }
    if (i == 0 || d < best) best = d;
  }
  return best;
}
void eq3(const vector3_t& a, const vector3_t& b, const char* l) { for (int i = 0; i < 3; ++i) sym::check_eq(a[i], b[i], l); }
void geometry(const ConvexShape& c, const std::vector<vector3_t>& p, const vector3_t& normal) {
  size_t n = p.size(); vector3_t m = vector3_t::Zero();
  for (auto& x : p) m = m + x;
  m = m / double(n);
  sym::check(c.shapeDimension_ == n && c.Pts_.size() == n && c.Us_.size() == n && c.Ns_.size() == n && c.Ls_.size() == (long)n, "one edge per point");
  eq3(c.C_, m, "center"); eq3(c.N_, normal, "normal");
  for (size_t i = 0; i < n; ++i) {
    eq3(c.Pts_[i], p[i], "points");
    vector3_t e = p[(i + 1) % n] - p[i];
    sym::check_le(0, c.Ls_[i], "length"); sym::check_eq(c.Ls_[i] * c.Ls_[i], e.dot(e), "length");
    eq3(c.Us_[i] * c.Ls_[i], e, "direction of the edge");
    eq3(c.Ns_[i], c.Us_[i].cross(normal), "normal of the edge in the plane");
  }
  matrix3_t F; F << c.N_, c.Ns_[0], c.Us_[0];
  for (int i = 0; i < 3; ++i) { sym::check_eq(c.positionInJoint().translation()[i], m[i], "frame of the shape"); for (int j = 0; j < 3; ++j) sym::check_eq(c.positionInJoint().rotation()(i, j), F(i, j), "frame of the shape"); }
  eq3(c.planeXaxis(), c.Ns_[0], "axes of the plane"); eq3(c.planeYaxis(), c.Us_[0], "axes of the plane");
}
}  // namespace
SCENARIO(polygon) {
  Shape s = shape(true, 2); std::vector<vector3_t> p = s.pts();
  ConvexShape c = p.size() == 3 && sym::flag("three_points") ? ConvexShape(p[0], p[1], p[2]) : ConvexShape(p);
  int k = sym::choose("then", 4);
  if (k == 0) geometry(c, p, s.R.col(2));
  else if (k == 1) { ConvexShape d(c); geometry(d, p, s.R.col(2)); sym::check(d == c && !(d != c), "copy compares equal"); }
  else if (k == 2) { c.reverse(); std::reverse(p.begin(), p.end()); geometry(c, p, -s.R.col(2)); }
  else { c.reverse(); c.reverse(); geometry(c, p, s.R.col(2)); }
}
SCENARIO(inside) {
  Shape s = shape(true, 1); ConvexShape c(s.pts());
  if (sym::flag("reversed")) c.reverse();
  V2 q(sym::real("x"), sym::real("y")); vector3_t x = s.at(q) + s.R.col(2) * sym::real("h");
  sym::check(c.isInsideLocal(x) == inside(s, q), "inside exactly when the point projects onto the polygon");
}
SCENARIO(distance) {
  Shape s = shape(false, 1, true); ConvexShape c(s.pts());
  if (sym::flag("reversed")) c.reverse();
  V2 q(sym::real("x"), sym::real("y"));
  double d = c.distanceLocal(s.at(q)), d2 = boundary2(s, q);
  if (inside(s, q)) sym::check_le(d, 0, "minus the distance to the boundary inside"); else sym::check(0 < d, "distance to the polygon outside");
  sym::check_eq(d * d, d2, "distance to the boundary");
}
// one or two points
SCENARIO(degenerate) {
  vector3_t a = v3("a"), u = v3("u"); int n = 1 + sym::choose("points", 2);
  sym::assume_lt(0.1, u.dot(u));
  std::vector<vector3_t> p{a}; if (n == 2) p.push_back(a + u);
  ConvexShape c(p); int k = sym::choose("then", 3);
  if (k == 1) { c.reverse(); std::reverse(p.begin(), p.end()); }
  ConvexShape c2(c); const ConvexShape& d = k == 2 ? c2 : c;
  if (k == 1) u = -u;
  eq3(d.C_, n == 2 ? vector3_t((p[0] + p[1]) / 2) : a, "center");
  matrix3_t M = d.positionInJoint().rotation(); eq3(d.positionInJoint().translation(), d.C_, "frame of the shape");
  matrix3_t I = M.transpose() * M;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::check_eq(I(i, j), i == j, "frame of the shape is orthonormal");
  eq3(M.col(0).cross(M.col(1)), M.col(2), "frame of the shape is direct");
  if (n == 2) { sym::check(0 < d.Ls_[0], "length"); sym::check_eq(d.Ls_[0] * d.Ls_[0], u.dot(u), "length"); eq3(d.Us_[0] * d.Ls_[0], u, "direction of the segment"); eq3(M.col(2), d.Us_[0], "frame along the segment"); }
}
// shape attached to a joint
SCENARIO(moved) {
  Robot R; int j = R.add(0, pin::JointModelFreeFlyer(), "A", poseR(1, vector3_t(1, 2, 0))); R.done();
  Shape s = shape(false, 1, true); bool world = sym::flag("world");
  ConvexShape c(s.pts(), world ? JointPtr_t() : R.joint(j));
  vector_t q = R.conf("q", [](int) { return quatR(3); }); R.at(q);
  Pose M = R.pose(world ? 0 : j);
  ConvexShapeData d; d.updateToCurrentTransform(c);
  auto g = [&](const vector3_t& x) { return vector3_t(M.R * x + M.p); };
  eq3(d.normal_, M.R * c.N_, "normal in the world"); eq3(d.center_, g(c.C_), "center in the world");
  switch (sym::choose("query", 4)) {
    case 0: { V2 x(sym::real("x"), sym::real("y")); sym::check(d.isInside(c, g(s.at(x) + s.R.col(2) * sym::real("h"))) == inside(s, x), "inside"); break; }
    case 1: {
      vector3_t A = v3("A"), u = v3("u"); double k = u.dot(d.normal_); if (sym::flag("down")) sym::assume_lt(k, -0.1); else sym::assume_lt(0.1, k);
      vector3_t X = d.intersection(A, u); sym::check_eq(d.normal_.dot(X - d.center_), 0, "intersection in the plane");
      eq3((X - A).cross(u), vector3_t::Zero(), "intersection on the line");
      matrix3_t T = M.R.transpose(); vector3_t Y = c.intersectionLocal(T * (A - M.p), T * u); eq3(g(Y), X, "intersection in the local frame");
      break; }
    case 2: { V2 x(sym::real("x"), sym::real("y")); vector3_t X = s.at(x); double e = d.distance(c, g(X)), f = c.distanceLocal(X); sym::check_eq(e, f, "distance"); break; }
    default: {
      vector3_t y = v3("Y"), l = M.R.transpose() * y, n = s.R.col(2), pr = l - n * n.dot(l);
      sym::assume_lt(0.1, pr.dot(pr));
      Transform3s P = d.alignedPositionInJoint(c, y); matrix3_t Q = P.rotation(), I = Q.transpose() * Q;
      eq3(P.translation(), c.C_, "aligned frame at the center"); eq3(Q.col(0), c.N_, "aligned frame along the normal");
      for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) sym::check_eq(I(i, k), i == k, "aligned frame is orthonormal");
      eq3(Q.col(0).cross(Q.col(1)), Q.col(2), "aligned frame is direct");
      double w = sqrt(pr.dot(pr)); eq3(Q.col(1) * w, pr, "aligned with the projection of the vector");
    }
  }
}
SCENARIO(segment) {
  vector3_t A = v3("A"), v = v3("v"), P = v3("P"), B; sym::assume_lt(0.1, v.dot(v));
  closestPointToSegment(P, A, v, B);
  double c = v.dot(P - A), l = v.dot(v);
  if (c <= 0) eq3(B, A, "closest point of the segment"); else if (l <= c) eq3(B, A + v, "closest point of the segment"); else eq3((B - A) * l, v * c, "closest point of the segment");
}
