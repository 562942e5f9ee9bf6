// C18: Jacobians of transformation functions.
#include "trans.hh"
using namespace env;
template <class T> void go(bool both, int masks) {
  Bot R(1); vector_t q; Fn f = pick<T>(R, both, masks, q, T::OutputR3xSO3 ? symQ : logQ);
  R.at(R.conf("other", [](int) { return quatR(3); }));
  if (sym::flag("evaluated_elsewhere")) { vector_t o = R.conf("o", [](int) { return quatR(4); }); (*f.f)(o); }
  long nr = f.f->outputDerivativeSize(), nv = R.d->numberDof();
  matrix_t J = mat("dirty", nr, nv); f.f->jacobian(J, q);
  vector_t v = vec("v", nv);
  vector_t v0 = (*f.f)(q).vector();
  std::vector<double> d = sym::derivative([&](double t) { return toV((*f.f)(R.move(q, v, t)).vector()); });
  long lin = f.so3 ? nr - 3 : nr;
  std::vector<double> r(d.begin(), d.begin() + lin);
  if (f.so3) {  // angular velocity of the quaternion
    quat_t u(v0.segment<4>(lin)), du(d[lin], d[lin + 1], d[lin + 2], d[lin + 3]), w = mulQ(conjQ(u), du);
    for (int i = 0; i < 3; ++i) r.push_back(2 * w[i]);
  }
  for (long i = 0; i < nr; ++i) { double p = 0; for (long j = 0; j < nv; ++j) p = p + J(i, j) * v[j]; sym::check_eq(p, r[i], "the Jacobian is the derivative of the value", 1e-3); }
  for (long j = 0; j < nv; ++j) if (!f.f->activeDerivativeParameters()[j]) for (long i = 0; i < nr; ++i) sym::check_eq(J(i, j), 0, "no influence of variables declared inactive");
}
SCENARIO(position) { go<Position>(true, 1); }
SCENARIO(relative_position) { go<RelativePosition>(true, 1); }
SCENARIO(orientation) { go<Orientation>(false, 1); }
SCENARIO(relative_orientation) { go<RelativeOrientation>(false, 1); }
SCENARIO(transformation) { go<Transformation>(false, 1); }
SCENARIO(relative_transformation) { go<RelativeTransformation>(false, 1); }
SCENARIO(orientation_quaternion) { go<OrientationSO3>(false, 2); }
SCENARIO(relative_orientation_quaternion) { go<RelativeOrientationSO3>(false, 2); }
SCENARIO(transformation_quaternion) { go<TransformationR3xSO3>(false, 2); }
SCENARIO(relative_transformation_quaternion) { go<RelativeTransformationR3xSO3>(false, 2); }
