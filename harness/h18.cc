#include "herm.h"
#include "gals/analytical-fields/velocity.h"
// rotation velocity about an arbitrary centre, at arbitrary positions; any field name, any gradient scheme
template <int DIM, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(0);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  LevelsetVelocity<G, double> lv(g);
  Array<G, Vec3<double>> x(g);
  if (AGAIN) {  // another rotation before, into the same velocity
    vp_generate<DIM>(g, e, vp_oldbox());
    vp_fillV<DIM>(x, e, "oldx");
    GALS::INPUT_FIELDS::Velocity in;
    in.name = DIM == 1 ? "REST" : "CIRCULAR";
    in.center.resize(3);
    in.center[0] = vp_real("oldcx"), in.center[1] = vp_real("oldcy"), in.center[2] = vp_real("oldcz");
    in.gradient_scheme = "ANALYTICAL";
    GALS::ANALYTICAL_FIELDS::Velocity<G, double> a(g, in);
    a.compute(x, vp_real("oldtime"), lv);
    vp_generate<DIM>(g, e, b);
  }
  vp_fillV<DIM>(lv.velocity(), e, "v");
  vp_fillM<DIM>(lv.velocityGradient(), e, "G");
  vp_fillV<DIM>(x, e, "x");
  GALS::INPUT_FIELDS::Velocity in;
  std::string name, scheme;
  vp_text(&name, "name", 0);
  vp_text(&scheme, "scheme", 0);
  const bool known = name == "CIRCULAR", analytical = scheme == "ANALYTICAL";
  if (DIM == 1) vp_assume(!known);  // refused: C20
  in.name = name;
  in.center.resize(3);
  in.center[0] = vp_real("cx"), in.center[1] = vp_real("cy"), in.center[2] = vp_real("cz");
  in.gradient_scheme = scheme;
  GALS::ANALYTICAL_FIELDS::Velocity<G, double> a(g, in);
  a.compute(x, vp_real("time"), lv);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  const double om = 3.141592653589793 / 3.15;
  if (known) {
    vp_reach("rotation");
    vp_eq("velocity along x", lv.velocity()(i, j, k)[0], om * (vp_real("cy") - vp_fn("x", 1, i, j, k)));
    vp_eq("velocity along y", lv.velocity()(i, j, k)[1], om * (vp_fn("x", 0, i, j, k) - vp_real("cx")));
    if (DIM == 3) vp_eq("no velocity along z", lv.velocity()(i, j, k)[2], 0);
  } else
    vp_keepV<DIM>("unknown field leaves the velocity alone", lv.velocity(), "v", c);
  if (known && analytical) {
    vp_reach("analytical gradient");
    const Mat3<double> m = lv.velocityGradient()(i, j, k);
    vp_eq("du/dx", m(0, 0), 0);
    vp_eq("du/dy", m(0, 1), -om);
    vp_eq("dv/dx", m(1, 0), om);
    vp_eq("dv/dy", m(1, 1), 0);
    for (int r = 0; r < 3; ++r)  // nothing depends on z or moves along z: these entries stay as they are, or become zero
      for (int s = 0; s < 3; ++s)
        if (r == 2 || s == 2) vp_eq("entries along z", m(r, s) * (m(r, s) - vp_fn("G", r * 3 + s, i, j, k)), 0);
  } else
    vp_keepM<DIM>("velocity gradient kept unless it is given analytically", lv.velocityGradient(), "G", c);
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepV<DIM>("positions kept", x, "x", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepV<DIM>("ghost layer of the velocity kept", lv.velocity(), "v", z);
  vp_keepM<DIM>("ghost layer of the gradient kept", lv.velocityGradient(), "G", z);
}
extern "C" void vpC18_1d() { run<1>(); }
extern "C" void vpC18_2d() { run<2>(); }
extern "C" void vpC18_3d() { run<3>(); }
extern "C" void vpC18_again_1d() { run<1, true>(); }
extern "C" void vpC18_again_2d() { run<2, true>(); }
extern "C" void vpC18_again_3d() { run<3, true>(); }
