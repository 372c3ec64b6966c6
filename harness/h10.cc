#include "herm.h"
// The four Bezier values of one edge after the limiter of Bockmann & Vartdal:
// unlimited values from the end values and slopes, then the first rule that applies.
static bool exact = false;  // native replay: all quantities are small integers, no rounding
struct Edge {
  double c[4];
  int rule;
};
static Edge limited(double f0, double g0, double f1, double g1, double h)
{
  Edge e;
  double a = f0 + g0 * h / 3, b = f1 - g1 * h / 3;
  e.rule = 0;
  e.c[0] = f0, e.c[1] = a, e.c[2] = b, e.c[3] = f1;
  double s0 = 3 * (a - f0), s1 = 3 * (f1 - b), m0 = 1.5 * (b - f0), m1 = 1.5 * (f1 - a), d = f1 - f0;
  if (vp_native() && !exact) {  // rounding decides on a tie between two rules
    const double u = (s0 - m0) * (s0 - d), v = (s1 - m1) * (s1 - d), w = (s0 - d) * (s1 - d);
    vp_assume(u * u > 1e-14 && v * v > 1e-14 && w * w > 1e-14);
  }
  if ((s0 - m0) * (s0 - d) < 0)
    e.c[2] = 2 * a - f0, e.rule = 1;
  else if ((s1 - m1) * (s1 - d) < 0)
    e.c[1] = 2 * b - f1, e.rule = 2;
  else if ((s0 - d) * (s1 - d) <= 0)
    e.c[1] = (2 * f0 + f1) / 3, e.c[2] = (2 * f1 + f0) / 3, e.rule = 3;
  return e;
}
static double bez(const Edge &e, double t)
{
  return e.c[0] * (1 - t) * (1 - t) * (1 - t) + 3 * e.c[1] * t * (1 - t) * (1 - t) + 3 * e.c[2] * t * t * (1 - t) + e.c[3] * t * t * t;
}
static double bez_d(const Edge &e, double t)
{
  return 3 * ((e.c[1] - e.c[0]) * (1 - t) * (1 - t) + 2 * (e.c[2] - e.c[1]) * t * (1 - t) + (e.c[3] - e.c[2]) * t * t);
}
template <int DIM>
static Edge edge(const Point &p, int axis, int ox, int oy, int oz)
{
  int i = p.b[0] + ox, j = p.b[1] + oy, k = p.b[2] + oz;
  int x = axis == 0, y = axis == 1, z = axis == 2;
  return limited(vp_fn("phi", 0, i, j, k), vp_fn("psi", axis, i, j, k), vp_fn("phi", 0, i + x, j + y, k + z), vp_fn("psi", axis, i + x, j + y, k + z), p.h[axis]);
}

// value and slope along the edge of the cell that runs in direction AX from the base node
template <int DIM, int AX>
static void along_edge()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  exact = vp_native() && vp_int("exact", 0, 1);
  if (exact) {
    for (int s = 0; s < 3; ++s) b.lo[s] = s - 1, b.len[s] = e.n[s];
    vp_integers("phi", 1), vp_integers("psi", 3), vp_integers("mix", 9);
  }
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Point p = vp_point<DIM>(e, b);
  if (exact) p.t[AX] = vp_int("eighths", 1, 7) / 8., p.x[AX] = b.lo[AX] + (p.b[AX] + 0.5 + p.t[AX]) * p.h[AX];
  for (int s = 0; s < DIM; ++s)
    if (s != AX) p.t[s] = vp_native() && !exact ? 1e-12 : 0, p.x[s] = b.lo[s] + (p.b[s] + 0.5 + p.t[s]) * p.h[s];
  vp_merge(1);
  auto r = GALS::INTERPOLATION::Hermite<double, G>().interpolate(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), ls, true);
  vp_merge(0);
  Edge l = edge<DIM>(p, AX, 0, 0, 0);
  if (l.rule == 0) vp_reach("limiter inactive");
  if (l.rule == 1) vp_reach("limiter rule 1");
  if (l.rule == 2) vp_reach("limiter rule 2");
  if (l.rule == 3) vp_reach("limiter rule 3");
  vp_eq("limited value along a cell edge", r.phi_interpolated, bez(l, p.t[AX]));
  vp_eq("limited slope along a cell edge", r.psi_interpolated[AX] * p.h[AX], bez_d(l, p.t[AX]));
}

// ... and along the other edges of the cell in direction AX, at offset O from the base node: points on them
// belong to the next cell, so the contract is about the limit from within the cell.  The interpolant
// is a cubic in each local coordinate; its value at 1 follows from the values at 4/8, 5/8, 6/8, 7/8.
template <int DIM, int AX, int OX, int OY, int OZ>
static void far_edge()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  exact = vp_native() && vp_int("exact", 0, 1);
  if (exact) {
    for (int s = 0; s < 3; ++s) b.lo[s] = s - 1, b.len[s] = e.n[s];
    vp_integers("phi", 1), vp_integers("psi", 3), vp_integers("mix", 9);
  }
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Point p = vp_point<DIM>(e, b);
  if (exact) p.t[AX] = vp_int("eighths", 1, 7) / 8., p.x[AX] = b.lo[AX] + (p.b[AX] + 0.5 + p.t[AX]) * p.h[AX];
  const int o[3] = {OX, OY, OZ}, u = AX == 0 ? 1 : 0, v = AX == 2 ? 1 : 2;
  const double w[4] = {-1, 4, -6, 4};
  double value = 0, slope = 0;
  for (int m = 0; m < (o[u] ? 4 : 1); ++m)
    for (int n = 0; n < (DIM > 2 && o[v] ? 4 : 1); ++n) {
      p.t[u] = o[u] ? (4 + m) / 8. : vp_native() && !exact ? 1e-12 : 0;
      p.x[u] = b.lo[u] + (p.b[u] + 0.5 + p.t[u]) * p.h[u];
      if (DIM > 2) p.t[v] = o[v] ? (4 + n) / 8. : vp_native() && !exact ? 1e-12 : 0;
      if (DIM > 2) p.x[v] = b.lo[v] + (p.b[v] + 0.5 + p.t[v]) * p.h[v];
      const double c = (o[u] ? w[m] : 1) * (DIM > 2 && o[v] ? w[n] : 1);
      vp_merge(1);
      auto r = GALS::INTERPOLATION::Hermite<double, G>().interpolate(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), ls, true);
      vp_merge(0);
      value += c * r.phi_interpolated, slope += c * r.psi_interpolated[AX];
    }
  Edge l = edge<DIM>(p, AX, OX, OY, OZ);
  if (l.rule == 0) vp_reach("limiter inactive");
  if (l.rule == 1) vp_reach("limiter rule 1");
  if (l.rule == 2) vp_reach("limiter rule 2");
  if (l.rule == 3) vp_reach("limiter rule 3");
  vp_eq("limited value along a far cell edge", value, bez(l, p.t[AX]));
  vp_eq("limited slope along a far cell edge", slope * p.h[AX], bez_d(l, p.t[AX]));
}

// nothing changes where the limiter has nothing to limit
template <int DIM>
static void inactive()
{
  typedef Grid<double, DIM> G;
  exact = false;
  Ext<DIM> e = vp_ext<DIM>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Point p = vp_point<DIM>(e, b);
  for (int ax = 0; ax < DIM; ++ax)
    for (int u = 0; u < (DIM > 1 ? 2 : 1); ++u)
      for (int v = 0; v < (DIM > 2 ? 2 : 1); ++v) {
        int ox = ax == 0 ? 0 : u, oy = ax == 0 ? u : ax == 1 ? 0 : v, oz = ax == 2 ? 0 : v;
        Edge l = edge<DIM>(p, ax, ox, oy, oz);
        vp_assume(l.rule == 0);
      }
  vp_reach("limiter inactive on every edge");
  auto r = GALS::INTERPOLATION::Hermite<double, G>().interpolate(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), ls, true);
  vp_eq("value with an idle limiter", r.phi_interpolated, hermite_spec<DIM>(p.b, p.t, p.h, -1));
  for (int s = 0; s < DIM; ++s) vp_eq("gradient with an idle limiter", r.psi_interpolated[s], hermite_spec<DIM>(p.b, p.t, p.h, s));
}
extern "C" void vpC10_edge_1d() { along_edge<1, 0>(); }
extern "C" void vpC10_edge_2dx() { along_edge<2, 0>(); }
extern "C" void vpC10_edge_2dy() { along_edge<2, 1>(); }
extern "C" void vpC10_edge_3dx() { along_edge<3, 0>(); }
extern "C" void vpC10_edge_3dy() { along_edge<3, 1>(); }
extern "C" void vpC10_edge_3dz() { along_edge<3, 2>(); }
extern "C" void vpC10_idle_1d() { inactive<1>(); }
extern "C" void vpC10_idle_2d() { inactive<2>(); }

extern "C" void vpC10_far_2dx() { far_edge<2, 0, 0, 1, 0>(); }
extern "C" void vpC10_far_2dy() { far_edge<2, 1, 1, 0, 0>(); }
extern "C" void vpC10_far_3dx_y() { far_edge<3, 0, 0, 1, 0>(); }
extern "C" void vpC10_far_3dx_z() { far_edge<3, 0, 0, 0, 1>(); }
extern "C" void vpC10_far_3dx_yz() { far_edge<3, 0, 0, 1, 1>(); }
extern "C" void vpC10_far_3dy_x() { far_edge<3, 1, 1, 0, 0>(); }
extern "C" void vpC10_far_3dy_z() { far_edge<3, 1, 0, 0, 1>(); }
extern "C" void vpC10_far_3dy_xz() { far_edge<3, 1, 1, 0, 1>(); }
extern "C" void vpC10_far_3dz_x() { far_edge<3, 2, 1, 0, 0>(); }
extern "C" void vpC10_far_3dz_y() { far_edge<3, 2, 0, 1, 0>(); }
extern "C" void vpC10_far_3dz_xy() { far_edge<3, 2, 1, 1, 0>(); }
