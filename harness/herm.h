// Tensor-product cubic Hermite interpolant, written from its mathematical definition:
// on one cell, along each axis, value basis h00/h01 and slope basis h10/h11.
#pragma once
#include "vp.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset.h"

// cardinal cubic Hermite functions on [0,1]; end 0/1, slope 0 (value) or 1 (derivative)
inline double hbasis(int end, int slope, double t)
{
  if (!slope) return end ? t * t * (3 - 2 * t) : 1 - t * t * (3 - 2 * t);
  return end ? t * t * (t - 1) : t * (1 - t) * (1 - t);
}
inline double hbasis_d(int end, int slope, double t)
{
  if (!slope) return end ? 6 * t - 6 * t * t : 6 * t * t - 6 * t;
  return end ? 3 * t * t - 2 * t : 3 * t * t - 4 * t + 1;
}

// nodal datum "derivative in the axes where s is set" at a node: value, gradient component or mixed derivative
template <int DIM>
double node_datum(int sx, int sy, int sz, int i, int j, int k)
{
  int n = sx + sy + sz;
  if (n == 0) return vp_fn("phi", 0, i, j, k);
  if (n == 1) return vp_fn("psi", sx ? 0 : sy ? 1 : 2, i, j, k);
  if (n == 3) return vp_fn("mix", 3, i, j, k);
  return vp_fn("mix", sx && sy ? 0 : sy && sz ? 1 : 2, i, j, k);  // xy, yz, zx
}

// the interpolant on cell (b, b+1) at local coordinates t; deriv = -1 or the axis to differentiate along
template <int DIM>
double hermite_spec(const int *b, const double *t, const double *h, int deriv)
{
  double r = 0;
  for (int ex = 0; ex < 2; ++ex)
    for (int sx = 0; sx < 2; ++sx) {
      double fx = deriv == 0 ? hbasis_d(ex, sx, t[0]) / h[0] : hbasis(ex, sx, t[0]);
      if (sx) fx = fx * h[0];
      if (DIM == 1) {
        r += fx * node_datum<DIM>(sx, 0, 0, b[0] + ex, 0, 0);
        continue;
      }
      for (int ey = 0; ey < 2; ++ey)
        for (int sy = 0; sy < 2; ++sy) {
          double fy = deriv == 1 ? hbasis_d(ey, sy, t[1]) / h[1] : hbasis(ey, sy, t[1]);
          if (sy) fy = fy * h[1];
          if (DIM == 2) {
            r += fx * fy * node_datum<DIM>(sx, sy, 0, b[0] + ex, b[1] + ey, 0);
            continue;
          }
          for (int ez = 0; ez < 2; ++ez)
            for (int sz = 0; sz < 2; ++sz) {
              double fz = deriv == 2 ? hbasis_d(ez, sz, t[2]) / h[2] : hbasis(ez, sz, t[2]);
              if (sz) fz = fz * h[2];
              r += fx * fy * fz * node_datum<DIM>(sx, sy, sz, b[0] + ex, b[1] + ey, b[2] + ez);
            }
        }
    }
  return r;
}

template <int DIM>
void vp_levelset(Levelset<Grid<double, DIM>, double> &ls, const Ext<DIM> &e)
{
  vp_fillS<DIM>(ls.phiPrev(), e, "phi");
  vp_fillV<DIM>(ls.psiPrev(), e, "psi");
  vp_fillN<DIM>(ls.phiMixedDerivativesPrev(), e, "mix");
  vp_fillS<DIM>(ls.phi(), e, "phi_new");
  vp_fillV<DIM>(ls.psi(), e, "psi_new");
  vp_fillN<DIM>(ls.phiMixedDerivatives(), e, "mix_new");
  vp_fillS<DIM>(ls.phiInterpPrev(), e, "phi_int");
  vp_fillV<DIM>(ls.psiInterpPrev(), e, "psi_int");
}

// what a level set held before
template <int DIM>
void vp_oldlevelset(Levelset<Grid<double, DIM>, double> &ls, const Ext<DIM> &e)
{
  vp_fillS<DIM>(ls.phiPrev(), e, "oldphi");
  vp_fillV<DIM>(ls.psiPrev(), e, "oldpsi");
  vp_fillN<DIM>(ls.phiMixedDerivativesPrev(), e, "oldmix");
}

// a point of the padded centre box: base cell b and local coordinates t
struct Point {
  int b[3];
  double t[3], h[3], x[3];
};
template <int DIM>
Point vp_point(const Ext<DIM> &e, const Box &b)
{
  Point p;
  for (int s = 0; s < 3; ++s) p.h[s] = b.len[s] / e.n[s], p.b[s] = 0, p.t[s] = 0;
  p.b[0] = vp_int("bx", -e.p, e.n[0] + e.p - 2), p.t[0] = vp_unit("tx");
  if (DIM > 1) p.b[1] = vp_int("by", -e.p, e.n[1] + e.p - 2), p.t[1] = vp_unit("ty");
  if (DIM > 2) p.b[2] = vp_int("bz", -e.p, e.n[2] + e.p - 2), p.t[2] = vp_unit("tz");
  p.x[0] = b.lo[0] + (p.b[0] + 0.5 + p.t[0]) * p.h[0];
  p.x[1] = DIM > 1 ? b.lo[1] + (p.b[1] + 0.5 + p.t[1]) * p.h[1] : vp_real("xy");
  p.x[2] = DIM > 2 ? b.lo[2] + (p.b[2] + 0.5 + p.t[2]) * p.h[2] : vp_real("xz");
  return p;
}
// another box, in which the point lies in another cell
template <int DIM>
Box vp_oldbox_at(const Ext<DIM> &e, const Point &p)
{
  Box c = vp_oldbox();
  int o[3];
  o[0] = vp_int("obx", -e.p, e.n[0] + e.p - 2);
  o[1] = DIM > 1 ? vp_int("oby", -e.p, e.n[1] + e.p - 2) : 0;
  o[2] = DIM > 2 ? vp_int("obz", -e.p, e.n[2] + e.p - 2) : 0;
  for (int s = 0; s < DIM; ++s) c.lo[s] = p.x[s] - (o[s] + 0.5 + p.t[s]) * c.len[s] / e.n[s];
  return c;
}
