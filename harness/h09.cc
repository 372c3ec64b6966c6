#include "herm.h"
template <int DIM, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Point p = vp_point<DIM>(e, b);
  if (AGAIN) {  // the same objects, asked about the same point when they held other values and covered another box
    vp_generate<DIM>(g, e, vp_oldbox_at<DIM>(e, p));
    vp_oldlevelset<DIM>(ls, e);
    GALS::INTERPOLATION::Hermite<double, G>().interpolate(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), ls);
    vp_generate<DIM>(g, e, b);
    vp_levelset<DIM>(ls, e);
  }
  vp_reach("point inside the padded box");
  const Levelset<G, double> &cls = ls;
  auto r = GALS::INTERPOLATION::Hermite<double, G>().interpolate(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), cls);
  for (int s = 0; s < DIM; ++s)
    vp_eq("interpolated gradient is the exact derivative of the interpolant", r.psi_interpolated[s], hermite_spec<DIM>(p.b, p.t, p.h, s));
  for (int s = DIM; s < 3; ++s) vp_eq("no derivative along an inactive axis", r.psi_interpolated[s], 0);
}
extern "C" void vpC09_1d() { run<1>(); }
extern "C" void vpC09_2d() { run<2>(); }
extern "C" void vpC09_3d() { run<3>(); }
extern "C" void vpC09_again_1d() { run<1, true>(); }
extern "C" void vpC09_again_2d() { run<2, true>(); }
extern "C" void vpC09_again_3d() { run<3, true>(); }
