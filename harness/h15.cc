#include "herm.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/temporal.h"
template <int DIM, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(0);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  LevelsetVelocity<G, double> lv(g);
  if (AGAIN) {  // a step before this one, with another box, other values and another velocity
    vp_generate<DIM>(g, e, vp_oldbox());
    vp_oldlevelset<DIM>(ls, e);
    vp_fillV<DIM>(lv.velocity(), e, "oldv");
    vp_fillM<DIM>(lv.velocityGradient(), e, "oldG");
    GALS::CPU::Temporal<double, G, GALS::TEMPORAL_SCHEMES::Euler<double, G>>::compute(vp_real("olddt"), lv, ls);
    vp_generate<DIM>(g, e, b);
    vp_levelset<DIM>(ls, e);
  }
  vp_fillV<DIM>(lv.velocity(), e, "v");
  vp_fillM<DIM>(lv.velocityGradient(), e, "G");
  double dt = vp_real("dt");
  GALS::CPU::Temporal<double, G, GALS::TEMPORAL_SCHEMES::Euler<double, G>>::compute(dt, lv, ls);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  vp_eq("explicit Euler update", ls.phi()(i, j, k), vp_fn("phi", 0, i, j, k) - dt * vp_fn("v", 0, i, j, k));
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepS<DIM>("previous level set kept", ls.phiPrev(), "phi", z);
  vp_keepV<DIM>("previous gradient kept", ls.psiPrev(), "psi", z);
  vp_keepN<DIM>("previous mixed derivatives kept", ls.phiMixedDerivativesPrev(), "mix", z);
  vp_keepV<DIM>("gradient kept", ls.psi(), "psi_new", z);
  vp_keepN<DIM>("mixed derivatives kept", ls.phiMixedDerivatives(), "mix_new", z);
  vp_keepV<DIM>("velocity kept", lv.velocity(), "v", z);
  vp_keepM<DIM>("velocity gradient kept", lv.velocityGradient(), "G", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepS<DIM>("ghost layer kept", ls.phi(), "phi_new", z);
}
extern "C" void vpC15_1d() { run<1>(); }
extern "C" void vpC15_2d() { run<2>(); }
extern "C" void vpC15_3d() { run<3>(); }
extern "C" void vpC15_again_1d() { run<1, true>(); }
extern "C" void vpC15_again_2d() { run<2, true>(); }
extern "C" void vpC15_again_3d() { run<3, true>(); }
