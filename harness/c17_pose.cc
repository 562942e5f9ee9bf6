// C17: values of transformation functions.
#include "trans.hh"
using namespace env;
static void value(Bot& R, const Fn& f, const vector_t& q) {
  Pose P = relPose(R, f, q);
  R.at(R.conf("other", [](int) { return quatR(3); }));
  LiegroupElement y = (*f.f)(q); vector_t v = y.vector(); long n = 0; int k = 0;
  long rows = 0; for (bool b : f.mask) rows += b;
  sym::check(v.size() == rows + (f.so3 ? 1 : 0) && f.f->outputDerivativeSize() == rows, "one component per selected row");
  if (f.pos) for (; k < 3; ++k) if (f.mask[k]) sym::check_eq(v[n++], P.p[k], "position of frame 2 in frame 1");
  if (!f.ori) return;
  if (f.so3) {
    quat_t u(v.segment<4>(n)); double nn = 0; for (int i = 0; i < 4; ++i) nn = nn + u[i] * u[i];
    sym::check_eq(nn, 1, "unit quaternion"); matrix3_t Q = rotQ(u);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::check_eq(Q(i, j), P.R(i, j), "quaternion of the rotation of frame 2 in frame 1");
  } else {
    vector3_t r; double th; logSO3(P.R, th, r);
    for (int i = 0; i < 3; ++i, ++k) if (f.mask[k]) sym::check_eq(v[n++], r[i], "logarithm of the rotation of frame 2 in frame 1");
  }
}
template <class T> void go(bool both, int masks) {
  Bot R(1); vector_t q; Fn f = pick<T>(R, both, masks, q);
  value(R, f, q);
}
SCENARIO(position) { go<Position>(true, 1); }
SCENARIO(relative_position) { go<RelativePosition>(true, 1); }
SCENARIO(orientation) { go<Orientation>(false, 1); }
SCENARIO(relative_orientation) { go<RelativeOrientation>(false, 1); }
SCENARIO(transformation) { go<Transformation>(false, 1); }
SCENARIO(relative_transformation) { go<RelativeTransformation>(false, 1); }
SCENARIO(orientation_quaternion) { go<OrientationSO3>(false, 2); }
SCENARIO(relative_orientation_quaternion) { go<RelativeOrientationSO3>(false, 2); }
SCENARIO(transformation_quaternion) { go<TransformationR3xSO3>(false, 2); }
SCENARIO(relative_transformation_quaternion) { go<RelativeTransformationR3xSO3>(false, 2); }
