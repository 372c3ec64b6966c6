// compiled like a production build: without BUILD_TESTS
#include "herm.h"
#include <iostream>
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/interpolation/linear.h"
// a vector of any length but three does not become a point
extern "C" void vpC20_length()
{
  const int n = vp_int("n", 0, 1000000);
  vp_assume(n != 3);
  std::vector<double> s(n);
  vp_reach("another length");
  vp_expect_exit("wrong length");
  const Vec3<double> v(s);
  vp_no_exit("a vector of another length than three is refused");
}
extern "C" void vpC20_lengthi()
{
  const int n = vp_int("n", 0, 1000000);
  vp_assume(n != 3);
  std::vector<int> s(n);
  vp_reach("another length");
  vp_expect_exit("wrong length");
  const Vec3<int> v(s);
  vp_no_exit("a vector of another length than three is refused");
}
extern "C" void vpC20_three()
{
  std::vector<double> s(3);
  for (int i = 0; i < 3; ++i) s[i] = vp_fn("a", 0, i, 0, 0);
  const Vec3<double> v(s);
  for (int i = 0; i < 3; ++i) vp_eq("three values are accepted", v[i], vp_fn("a", 0, i, 0, 0));
  vp_reach("end");
}
template <int DIM>
static void circular()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(0);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  LevelsetVelocity<G, double> lv(g);
  Array<G, Vec3<double>> x(g);
  GALS::INPUT_FIELDS::Velocity in;
  std::string name;
  vp_text(&name, "name", 0);
  vp_text(&in.gradient_scheme, "scheme", 0);
  in.name = name;
  in.center.resize(3);
  GALS::ANALYTICAL_FIELDS::Velocity<G, double> a(g, in);
  vp_reach("velocity");
  const bool refused = DIM == 1 && name == "CIRCULAR";
  if (refused) vp_expect_exit("rotation on a line");
  a.compute(x, vp_real("time"), lv);
  if (refused) vp_no_exit("a rotation on a line is refused");
  vp_reach("end");
}
extern "C" void vpC20_circular_1d() { circular<1>(); }
extern "C" void vpC20_circular_2d() { circular<2>(); }
extern "C" void vpC20_circular_3d() { circular<3>(); }
extern "C" void vpC20_linear_levelset()
{
  typedef Grid<double, 1> G;
  Ext<1> e = vp_ext<1>(1);
  G g(e.n[0], 1, 1);
  vp_generate<1>(g, e, vp_box());
  Levelset<G, double> ls(g);
  Array<G, Vec3<double>> x(g);
  vp_reach("call");
  vp_expect_exit("linear interpolation of a level set");
  const int how = vp_int("how", 0, 2);
  if (how == 0)
    GALS::INTERPOLATION::Linear<double, G>().compute(x, ls);
  else if (how == 1)
    GALS::INTERPOLATION::Linear<double, G>()(x, ls);
  else
    Interpolate<double, G, GALS::INTERPOLATION::Linear<double, G>>::compute(x, ls);
  vp_no_exit("linear interpolation of a level set is refused");
}
template <int DIM>
static void hermite_scalar()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, vp_box());
  Array<G, Vec3<double>> x(g);
  Array<G, double> a(g), r(g);
  vp_reach("call");
  vp_expect_exit("Hermite interpolation without gradients");
  if (vp_int("how", 0, 1) == 0)
    GALS::INTERPOLATION::Hermite<double, G>()(x, a, r);
  else
    Interpolate<double, G, GALS::INTERPOLATION::Hermite<double, G>>::compute(x, a, r);
  vp_no_exit("Hermite interpolation of a field without gradients is refused");
}
extern "C" void vpC20_hermite_1d() { hermite_scalar<1>(); }
extern "C" void vpC20_hermite_2d() { hermite_scalar<2>(); }
extern "C" void vpC20_hermite_3d() { hermite_scalar<3>(); }
