#include "mkgrid.h"
// every point lies in exactly one cell-centre interval per axis, and its lower end is the base node
template <int DIM, bool AGAIN = false>
static void base()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  const Box b = vp_box();
  Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, b);
  const int B[3] = {vp_int("bi", -1000000000, 1000000000), DIM > 1 ? vp_int("bj", -1000000000, 1000000000) : 0, DIM > 2 ? vp_int("bk", -1000000000, 1000000000) : 0};
  const double T[3] = {vp_unit("ti"), DIM > 1 ? vp_unit("tj") : vp_real("anyy"), DIM > 2 ? vp_unit("tk") : vp_real("anyz")};
  Vec3<double> x;
  for (int d = 0; d < 3; ++d) x[d] = d < DIM ? b.lo[d] + (B[d] + 0.5 + T[d]) * b.len[d] / e.n[d] : T[d];
  if (AGAIN) {  // the same grid, asked about the same point when it covered another box
    const Box c = vp_oldbox();
    for (int d = 0; d < DIM; ++d) {
      const double at = (x[d] - c.lo[d]) * e.n[d] / c.len[d];
      vp_assume(at > -1000000000 && at < 1000000000);
    }
    vp_generate<DIM>(g, e, c);
    g.baseNodeId(x);
    vp_generate<DIM>(g, e, b);
  }
  const Vec3<int> r = g.baseNodeId(x);
  for (int d = 0; d < DIM; ++d) vp_eqi("base node", r[d], B[d]);
  vp_reach("end");
}
extern "C" void vpC03_1d() { base<1>(); }
extern "C" void vpC03_2d() { base<2>(); }
extern "C" void vpC03_3d() { base<3>(); }
// a base node of the padded box is a legal subscript, and the point lies between the centres of it and the next node
template <int DIM>
static void enclose()
{
  const Ext<DIM> e = vp_ext<DIM>(1);
  const Box b = vp_box();
  Grid<double, DIM> g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, b);
  const Cell c = vp_cell<DIM>(e, "ci", "cj", "ck", true);
  const double T[3] = {vp_unit("ti"), vp_unit("tj"), vp_unit("tk")};
  for (int d = 0; d < DIM; ++d) vp_assume(c.c[d] < e.n[d] + e.q[d] - 1);
  Vec3<double> x;
  for (int d = 0; d < DIM; ++d) x[d] = b.lo[d] + (c.c[d] + 0.5 + T[d]) * b.len[d] / e.n[d];
  const Vec3<int> r = g.baseNodeId(x);
  const Grid<double, DIM> &cg = g;
  const Vec3<double> lo = cg(r), hi = cg(r[0] + 1, DIM > 1 ? r[1] + 1 : 0, DIM > 2 ? r[2] + 1 : 0);
  const Vec3<int> s = g.baseNodeId(cg(c.c[0], c.c[1], c.c[2]));
  for (int d = 0; d < DIM; ++d) {
    vp_check("point is not before the base node", lo[d] <= x[d]);
    vp_check("point is before the next node", x[d] < hi[d]);
    if (!vp_native()) vp_eqi("a cell centre is its own base node", s[d], c.c[d]);
  }
  vp_reach("end");
}
extern "C" void vpC03_enclose_1d() { enclose<1>(); }
extern "C" void vpC03_enclose_2d() { enclose<2>(); }
extern "C" void vpC03_enclose_3d() { enclose<3>(); }
extern "C" void vpC03_again_1d() { base<1, true>(); }
extern "C" void vpC03_again_2d() { base<2, true>(); }
extern "C" void vpC03_again_3d() { base<3, true>(); }
