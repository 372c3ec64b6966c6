#include "herm.h"
// interpolation of the whole field at one arbitrary point per cell
template <int DIM, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Array<G, Vec3<double>> x(g);
  double h[3];
  if (AGAIN) {  // the same objects, used before with another box and other values
    Point p;  // the point of the first cell
    for (int s = 0; s < 3; ++s) {
      const int B = s < DIM ? vp_fnint(s == 0 ? "basex" : s == 1 ? "basey" : "basez", 0, 0, 0, 0, -e.p, e.n[s] + e.p - 2) : 0;
      p.t[s] = s < DIM ? vp_fnunit("t", s, 0, 0, 0) : 0;
      p.x[s] = s < DIM ? b.lo[s] + (B + 0.5 + p.t[s]) * b.len[s] / e.n[s] : vp_fn("x", s, 0, 0, 0);
    }
    vp_generate<DIM>(g, e, vp_oldbox_at<DIM>(e, p));
    vp_oldlevelset<DIM>(ls, e);
    vp_fill<DIM>(e, [&](int i, int j, int k) { x(i, j, k) = Vec3<double>(p.x[0], p.x[1], p.x[2]); });
    GALS::CPU::Interpolate<double, G, GALS::INTERPOLATION::Hermite<double, G>>::compute(x, ls);
    vp_generate<DIM>(g, e, b);
    vp_levelset<DIM>(ls, e);
  }
  for (int s = 0; s < 3; ++s) h[s] = b.len[s] / e.n[s];
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    Vec3<double> &v = x(i, j, k);
    v[0] = b.lo[0] + (vp_fnint("basex", 0, i, j, k, -e.p, e.n[0] + e.p - 2) + 0.5 + vp_fnunit("t", 0, i, j, k)) * h[0];
    v[1] = DIM > 1 ? b.lo[1] + (vp_fnint("basey", 0, i, j, k, -e.p, e.n[1] + e.p - 2) + 0.5 + vp_fnunit("t", 1, i, j, k)) * h[1] : vp_fn("x", 1, i, j, k);
    v[2] = DIM > 2 ? b.lo[2] + (vp_fnint("basez", 0, i, j, k, -e.p, e.n[2] + e.p - 2) + 0.5 + vp_fnunit("t", 2, i, j, k)) * h[2] : vp_fn("x", 2, i, j, k);
  });
  GALS::CPU::Interpolate<double, G, GALS::INTERPOLATION::Hermite<double, G>>::compute(x, ls);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  int B[3];
  double t[3];
  B[0] = vp_fnint("basex", 0, i, j, k, -e.p, e.n[0] + e.p - 2), t[0] = vp_fnunit("t", 0, i, j, k);
  if (DIM > 1) B[1] = vp_fnint("basey", 0, i, j, k, -e.p, e.n[1] + e.p - 2), t[1] = vp_fnunit("t", 1, i, j, k);
  if (DIM > 2) B[2] = vp_fnint("basez", 0, i, j, k, -e.p, e.n[2] + e.p - 2), t[2] = vp_fnunit("t", 2, i, j, k);
  vp_eq("interpolated value of every cell", ls.phiInterpPrev()(i, j, k), hermite_spec<DIM>(B, t, h, -1));
  for (int s = 0; s < 3; ++s) vp_eq("interpolated gradient of every cell", ls.psiInterpPrev()(i, j, k)[s], s < DIM ? hermite_spec<DIM>(B, t, h, s) : 0);
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepS<DIM>("previous level set kept", ls.phiPrev(), "phi", z);
  vp_keepV<DIM>("previous gradient kept", ls.psiPrev(), "psi", z);
  vp_keepN<DIM>("previous mixed derivatives kept", ls.phiMixedDerivativesPrev(), "mix", z);
  vp_keepS<DIM>("current level set kept", ls.phi(), "phi_new", z);
  vp_keepV<DIM>("current gradient kept", ls.psi(), "psi_new", z);
  vp_keepN<DIM>("current mixed derivatives kept", ls.phiMixedDerivatives(), "mix_new", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepS<DIM>("ghost layer of the interpolated value kept", ls.phiInterpPrev(), "phi_int", z);
  vp_keepV<DIM>("ghost layer of the interpolated gradient kept", ls.psiInterpPrev(), "psi_int", z);
}
extern "C" void vpC12_1d() { run<1>(); }
extern "C" void vpC12_2d() { run<2>(); }
extern "C" void vpC12_3d() { run<3>(); }
extern "C" void vpC12_again_1d() { run<1, true>(); }
extern "C" void vpC12_again_2d() { run<2, true>(); }
extern "C" void vpC12_again_3d() { run<3, true>(); }
