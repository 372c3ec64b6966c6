#include "herm.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/temporal.h"
// one semi-Lagrangian step with an arbitrary velocity field whose characteristics stay in the padded box
template <int DIM, bool BACK, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  LevelsetVelocity<G, double> lv(g);
  double dt = BACK ? -vp_pos("dt") : vp_pos("dt");
  double h[3];
  for (int s = 0; s < 3; ++s) h[s] = b.len[s] / e.n[s];
  if (AGAIN) {  // a step before this one, with another box, other values and another velocity
    const Box c = vp_oldbox();
    const double dt = vp_pos("olddt");
    vp_generate<DIM>(g, e, c);
    vp_oldlevelset<DIM>(ls, e);
    vp_fill<DIM>(e, [&](int i, int j, int k) {
      Vec3<double> &v = lv.velocity()(i, j, k);
      for (int s = 0; s < 3; ++s)
        v[s] = ((s == 0 ? i : s == 1 ? j : k) - vp_fnint(s == 0 ? "oldbasex" : s == 1 ? "oldbasey" : "oldbasez", 0, i, j, k, -e.p, e.n[s] + e.p - 2) - vp_fnunit("oldt", s, i, j, k)) *
               c.len[s] / e.n[s] / dt;
    });
    vp_fillM<DIM>(lv.velocityGradient(), e, "oldG");
    GALS::CPU::Temporal<double, G, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G>>::compute(dt, lv, ls);
    vp_generate<DIM>(g, e, b);
    vp_levelset<DIM>(ls, e);
  }
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    Vec3<double> &v = lv.velocity()(i, j, k);
    v[0] = (i - vp_fnint("basex", 0, i, j, k, -e.p, e.n[0] + e.p - 2) - vp_fnunit("t", 0, i, j, k)) * h[0] / dt;
    v[1] = DIM > 1 ? (j - vp_fnint("basey", 0, i, j, k, -e.p, e.n[1] + e.p - 2) - vp_fnunit("t", 1, i, j, k)) * h[1] / dt : vp_fn("v", 1, i, j, k);
    v[2] = DIM > 2 ? (k - vp_fnint("basez", 0, i, j, k, -e.p, e.n[2] + e.p - 2) - vp_fnunit("t", 2, i, j, k)) * h[2] / dt : vp_fn("v", 2, i, j, k);
  });
  vp_fillM<DIM>(lv.velocityGradient(), e, "G");
  GALS::CPU::Temporal<double, G, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G>>::compute(dt, lv, ls);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  int B[3];
  double t[3], pi_[3];
  B[0] = vp_fnint("basex", 0, i, j, k, -e.p, e.n[0] + e.p - 2), t[0] = vp_fnunit("t", 0, i, j, k);
  if (DIM > 1) B[1] = vp_fnint("basey", 0, i, j, k, -e.p, e.n[1] + e.p - 2), t[1] = vp_fnunit("t", 1, i, j, k);
  if (DIM > 2) B[2] = vp_fnint("basez", 0, i, j, k, -e.p, e.n[2] + e.p - 2), t[2] = vp_fnunit("t", 2, i, j, k);
  vp_eq("new value is the old interpolant at the foot of the characteristic", ls.phi()(i, j, k), hermite_spec<DIM>(B, t, h, -1));
  for (int s = 0; s < DIM; ++s) pi_[s] = hermite_spec<DIM>(B, t, h, s);
  for (int s = 0; s < DIM; ++s) {
    double want = pi_[s];
    for (int r = 0; r < DIM; ++r) want -= dt * vp_fn("G", 3 * r + s, i, j, k) * pi_[r];
    vp_eq("new gradient is the old one at the foot, times the Jacobian of the characteristic map", ls.psi()(i, j, k)[s], want);
  }
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepS<DIM>("previous level set kept", ls.phiPrev(), "phi", z);
  vp_keepV<DIM>("previous gradient kept", ls.psiPrev(), "psi", z);
  vp_keepN<DIM>("previous mixed derivatives kept", ls.phiMixedDerivativesPrev(), "mix", z);
  vp_keepM<DIM>("velocity gradient kept", lv.velocityGradient(), "G", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepS<DIM>("ghost layer of the level set kept", ls.phi(), "phi_new", z);
  vp_keepV<DIM>("ghost layer of the gradient kept", ls.psi(), "psi_new", z);
}
extern "C" void vpC13_1d() { run<1, false>(); }
extern "C" void vpC13_2d() { run<2, false>(); }
extern "C" void vpC13_3d() { run<3, false>(); }
extern "C" void vpC13_back_1d() { run<1, true>(); }
extern "C" void vpC13_back_2d() { run<2, true>(); }
extern "C" void vpC13_back_3d() { run<3, true>(); }
extern "C" void vpC13_again_1d() { run<1, false, true>(); }
extern "C" void vpC13_again_2d() { run<2, false, true>(); }
extern "C" void vpC13_again_3d() { run<3, false, true>(); }
