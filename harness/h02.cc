#include "mkgrid.h"
template <int DIM>
static void described(Grid<double, DIM> &g, const Ext<DIM> &e, const Box &b, const char *i = "ci", const char *j = "cj", const char *k = "ck")
{
  vp_eqi("one storage slot per cell of the padded box", (long)g.size(), vp_total<DIM>(e));
  vp_eqi("interior cell count", (long)g.totalCells(), (long)e.n[0] * (long)e.n[1] * (long)e.n[2]);
  vp_eqi("dimension", g.dimension(), DIM);
  vp_eqi("padding", g.getPadding(), e.p);
  const Vec3<int> n = g.numCells();
  const int *mask = g.getMask();
  for (int d = 0; d < 3; ++d) {
    vp_eqi("cell counts", n[d], e.n[d]);
    vp_eqi("axis mask", mask[d], d < DIM ? 1 : 0);
  }
  const Cell c = vp_cell<DIM>(e, i, j, k, true);
  const Grid<double, DIM> &cg = g;
  const Vec3<double> &x = cg(c.c[0], c.c[1], c.c[2]), &y = cg(Vec3<int>(c.c[0], c.c[1], c.c[2])), &z = g.x(c.c[0], c.c[1], c.c[2]);
  for (int d = 0; d < DIM; ++d) {
    vp_eq("cell size", g.dX()[d] * e.n[d], b.len[d]);
    vp_eq("inverse cell size", g.oneOverDX()[d] * b.len[d], e.n[d]);
    const double centre = b.lo[d] + (c.c[d] + 0.5) * b.len[d] / e.n[d];
    vp_eq("cell centre", x[d], centre);
    vp_eq("cell centre by node id", y[d], centre);
    vp_eq("cell centre by reference", z[d], centre);
  }
  vp_reach("end");
}
template <int DIM>
static void fresh()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  const Box b = vp_box();
  Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, b);
  described<DIM>(g, e, b);
}
extern "C" void vpC02_1d() { fresh<1>(); }
extern "C" void vpC02_2d() { fresh<2>(); }
extern "C" void vpC02_3d() { fresh<3>(); }
// generating again, with another padding and another box, leaves nothing of the first generation
template <int DIM>
static void again()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  const Box b = vp_box();
  Ext<DIM> f = e;
  f.p = vp_int("oldpad", 0, 268435455);
  for (int d = 0; d < DIM; ++d) f.q[d] = f.p;
  vp_assume((long)f.n[0] + 2 * (long)f.q[0] <= VP_MAXN);
  if (DIM > 1) vp_assume(((long)f.n[0] + 2 * (long)f.q[0]) * ((long)f.n[1] + 2 * (long)f.q[1]) <= VP_MAXN);
  if (DIM > 2) vp_assume((f.n[0] + 2. * f.q[0]) * (f.n[1] + 2. * f.q[1]) * (f.n[2] + 2. * f.q[2]) <= VP_MAXN);
  const Box c = vp_oldbox();
  Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, f, c);
  described<DIM>(g, f, c, "oi", "oj", "ok");
  vp_generate<DIM>(g, e, b);
  described<DIM>(g, e, b);
}
extern "C" void vpC02_again_1d() { again<1>(); }
extern "C" void vpC02_again_2d() { again<2>(); }
extern "C" void vpC02_again_3d() { again<3>(); }
// before generation: counts and the default padding of one
template <int DIM>
static void ungenerated()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  const Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_eqi("default padding", g.getPadding(), 1);
  vp_eqi("no storage yet", g.size(), 0);
  vp_eqi("interior cell count", (long)g.totalCells(), (long)e.n[0] * (long)e.n[1] * (long)e.n[2]);
  for (int d = 0; d < 3; ++d) vp_eqi("cell counts", g.numCells()[d], e.n[d]);
  vp_reach("end");
}
// the vectors along the axes, shared by all grids of a dimension
template <int DIM>
static void constants()
{
  for (int r = 0; r < 3; ++r)
    for (int s = 0; s < 3; ++s) {
      const int row = Grid<double, DIM>::axis_vectors(r, s);
      vp_eqi("axis vectors", row, r == s ? 1 : 0);
      const double unit = Grid<double, DIM>::identity_mat(r, s);
      vp_eq("identity", unit, r == s ? 1 : 0);
    }
  vp_reach("end");
}
extern "C" void vpC02_constants_1d() { constants<1>(); }
extern "C" void vpC02_constants_2d() { constants<2>(); }
extern "C" void vpC02_constants_3d() { constants<3>(); }
extern "C" void vpC02_new_1d() { ungenerated<1>(); }
extern "C" void vpC02_new_2d() { ungenerated<2>(); }
extern "C" void vpC02_new_3d() { ungenerated<3>(); }
// the shorter constructors: one cell along the axes that are not given
template <int DIM, int GIVEN>
static void shorter()
{
  Ext<DIM> e = vp_ext<DIM>(0);
  for (int d = GIVEN; d < DIM; ++d) vp_assume(e.n[d] == 1);
  const Box b = vp_box();
  Grid<double, DIM> g = GIVEN == 1 ? Grid<double, DIM>(e.n[0]) : Grid<double, DIM>(e.n[0], e.n[1]);
  vp_generate<DIM>(g, e, b);
  described<DIM>(g, e, b);
}
extern "C" void vpC02_short_2d() { shorter<2, 1>(); }
extern "C" void vpC02_short_3d() { shorter<3, 1>(); }
extern "C" void vpC02_shorter_3d() { shorter<3, 2>(); }
extern "C" void vpC02_plane_1d()
{
  const Ext<1> e = vp_ext<1>(0);
  const Box b = vp_box();
  Grid<double, 1> g(e.n[0], 1);
  vp_generate<1>(g, e, b);
  described<1>(g, e, b);
}
// a copy of a grid describes the same box, and is a grid of its own
template <int DIM>
static void copied()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  const Box b = vp_box();
  Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, b);
  Grid<double, DIM> h(g);
  vp_generate<DIM>(g, e, vp_oldbox());
  described<DIM>(h, e, b);
}
extern "C" void vpC02_copy_1d() { copied<1>(); }
extern "C" void vpC02_copy_2d() { copied<2>(); }
extern "C" void vpC02_copy_3d() { copied<3>(); }
