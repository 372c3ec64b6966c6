#include "herm.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/temporal.h"
template <int DIM>
using SL = GALS::CPU::Temporal<double, Grid<double, DIM>, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, Grid<double, DIM>>>;

// MODE 0: fluid at rest, any dt.  MODE 1: any velocity, dt = 0.
template <int DIM, int MODE>
static void rest()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  LevelsetVelocity<G, double> lv(g);
  if (MODE == 1) {
    vp_fillV<DIM>(lv.velocity(), e, "v");
    vp_fillM<DIM>(lv.velocityGradient(), e, "G");
  }
  SL<DIM>::compute(MODE == 0 ? vp_real("dt") : 0, lv, ls);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_assume(i < e.n[0] + e.p - 1);
  vp_reach("interior cell");
  vp_eq("value unchanged", ls.phi()(i, j, k), vp_fn("phi", 0, i, j, k));
  for (int s = 0; s < DIM; ++s) vp_eq("gradient unchanged", ls.psi()(i, j, k)[s], vp_fn("psi", s, i, j, k));
}

// polynomial of degree <= 3 per axis with arbitrary coefficients, and its derivatives (0/1 per axis)
// (SPARSE: total degree at most 3)
template <int DIM, bool SPARSE>
static double poly(const double *u, const int *d, const double *h)
{
  double pw[3][4];
  for (int s = 0; s < DIM; ++s) {
    if (!d[s])
      pw[s][0] = 1, pw[s][1] = u[s], pw[s][2] = u[s] * u[s], pw[s][3] = u[s] * u[s] * u[s];
    else
      pw[s][0] = 0, pw[s][1] = 1 / h[s], pw[s][2] = 2 * u[s] / h[s], pw[s][3] = 3 * u[s] * u[s] / h[s];
  }
  double r = 0;
  for (int l = 0; l < 4; ++l)
    for (int m = 0; m < (DIM > 1 ? 4 : 1); ++m)
      for (int n = 0; n < (DIM > 2 ? 4 : 1); ++n) {
        if (SPARSE && l + m + n > 3) continue;
        double f = pw[0][l];
        if (DIM > 1) f = f * pw[1][m];
        if (DIM > 2) f = f * pw[2][n];
        r += f * vp_fn("coef", 0, l, m, n);
      }
  return r;
}
template <int DIM, bool SPARSE>
static double polyd(const double *u, int a, int b, int c, const double *h)
{
  int d[3] = {a, b, c};
  return poly<DIM, SPARSE>(u, d, h);
}

// uniform translation by any displacement that stays in the padded box
template <int DIM, bool SPARSE>
static void translate()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  LevelsetVelocity<G, double> lv(g);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  // foot of the characteristic of cell c: base node R, local coordinates t; the displacement
  // (at most the padding, in cells) is the same for every cell
  int R[3];
  double t[3], h[3], dt = vp_pos("dt");
  R[0] = vp_int("rx", c.c[0] - e.p, c.c[0] + e.p - 1), t[0] = vp_unit("tx");
  if (DIM > 1) R[1] = vp_int("ry", c.c[1] - e.p, c.c[1] + e.p - 1), t[1] = vp_unit("ty");
  if (DIM > 2) R[2] = vp_int("rz", c.c[2] - e.p, c.c[2] + e.p - 1), t[2] = vp_unit("tz");
  for (int s = 0; s < 3; ++s) h[s] = b.len[s] / e.n[s];
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    double u[3];
    u[0] = i - R[0];
    if (DIM > 1) u[1] = j - R[1];
    if (DIM > 2) u[2] = k - R[2];
    ls.phiPrev()(i, j, k) = polyd<DIM, SPARSE>(u, 0, 0, 0, h);
    Vec3<double> &p = ls.psiPrev()(i, j, k);
    p[0] = polyd<DIM, SPARSE>(u, 1, 0, 0, h);
    if (DIM > 1) p[1] = polyd<DIM, SPARSE>(u, 0, 1, 0, h);
    if (DIM > 2) p[2] = polyd<DIM, SPARSE>(u, 0, 0, 1, h);
    if (DIM == 2) ls.phiMixedDerivativesPrev()(i, j, k)[0] = polyd<DIM, SPARSE>(u, 1, 1, 0, h);
    if (DIM == 3) {
      auto &m = ls.phiMixedDerivativesPrev()(i, j, k);
      m[0] = polyd<DIM, SPARSE>(u, 1, 1, 0, h), m[1] = polyd<DIM, SPARSE>(u, 0, 1, 1, h), m[2] = polyd<DIM, SPARSE>(u, 1, 0, 1, h), m[3] = polyd<DIM, SPARSE>(u, 1, 1, 1, h);
    }
    Vec3<double> &v = lv.velocity()(i, j, k);
    for (int s = 0; s < DIM; ++s) v[s] = (c.c[s] - R[s] - t[s]) * h[s] / dt;
  });
  SL<DIM>::compute(dt, lv, ls);
  vp_reach("translated cell");
  vp_eq("cubic translated exactly", ls.phi()(c.c[0], c.c[1], c.c[2]), polyd<DIM, SPARSE>(t, 0, 0, 0, h));
  for (int s = 0; s < DIM; ++s)
    vp_eq("gradient of the cubic translated exactly", ls.psi()(c.c[0], c.c[1], c.c[2])[s], polyd<DIM, SPARSE>(t, s == 0, s == 1, s == 2, h));
}
extern "C" void vpC14_rest_1d() { rest<1, 0>(); }
extern "C" void vpC14_rest_2d() { rest<2, 0>(); }
extern "C" void vpC14_rest_3d() { rest<3, 0>(); }
extern "C" void vpC14_dt0_1d() { rest<1, 1>(); }
extern "C" void vpC14_dt0_2d() { rest<2, 1>(); }
extern "C" void vpC14_dt0_3d() { rest<3, 1>(); }
extern "C" void vpC14_translate_1d() { translate<1, false>(); }
extern "C" void vpC14_translate_2d() { translate<2, false>(); }
extern "C" void vpC14_translate_3d() { translate<3, true>(); }
extern "C" void vpC14_thorough_translate_3d() { translate<3, false>(); }
