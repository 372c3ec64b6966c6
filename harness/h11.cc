#include "herm.h"
// linear interpolation on a 1-D grid: single point and whole field (possibly of another grid)
template <bool AGAIN>
static void point()
{
  typedef Grid<double, 1> G;
  Ext<1> e = vp_ext<1>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<1>(g, e, b);
  Array<G, double> a(g);
  vp_fillS<1>(a, e, "a");
  Point p = vp_point<1>(e, b);
  if (AGAIN) {  // the same objects, asked about the same point when they held other values and covered another box
    vp_generate<1>(g, e, vp_oldbox_at<1>(e, p));
    vp_fillS<1>(a, e, "olda");
    GALS::INTERPOLATION::Linear<double, G>().linearInterpolation(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), a);
    vp_generate<1>(g, e, b);
    vp_fillS<1>(a, e, "a");
  }
  vp_reach("point inside the padded box");
  double r = GALS::INTERPOLATION::Linear<double, G>().linearInterpolation(g, Vec3<double>(p.x[0], p.x[1], p.x[2]), a);
  vp_eq("linear interpolant", r, (1 - p.t[0]) * vp_fn("a", 0, p.b[0], 0, 0) + p.t[0] * vp_fn("a", 0, p.b[0] + 1, 0, 0));
}
extern "C" void vpC11_point() { point<false>(); }
extern "C" void vpC11_point_again() { point<true>(); }
extern "C" void vpC11_field()
{
  typedef Grid<double, 1> G;
  Ext<1> e = vp_ext<1>(1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<1>(g, e, b);
  Array<G, double> a(g);
  vp_fillS<1>(a, e, "a");
  // target points on a grid of their own
  Ext<1> f;
  f.n[0] = vp_int("mx", 1, 1073741823), f.n[1] = f.n[2] = 1;
  f.p = vp_int("mpad", 0, 268435455), f.q[0] = f.p, f.q[1] = f.q[2] = 0;
  G h(f.n[0], 1, 1);
  h.setPadding(f.p);
  h.generate(vp_real("txmin"), vp_real("txmax"), -1, 1, -1, 1);
  Array<G, Vec3<double>> x(h);
  Array<G, double> out(h);
  double dx = b.len[0] / e.n[0];
  vp_fill<1>(f, [&](int i, int j, int k) {
    Vec3<double> &v = x(i, j, k);
    v[0] = b.lo[0] + (vp_fnint("base", 0, i, j, k, -e.p, e.n[0] + e.p - 2) + 0.5 + vp_fnunit("t", 0, i, j, k)) * dx;
    v[1] = vp_fn("x", 1, i, j, k), v[2] = vp_fn("x", 2, i, j, k);
  });
  vp_fillS<1>(out, f, "out");
  GALS::CPU::Interpolate<double, G, GALS::INTERPOLATION::Linear<double, G>>::compute(x, a, out);
  Cell c = vp_cell<1>(f, "i", "j", "k", false);
  int i = c.c[0];
  vp_reach("target point");
  int B = vp_fnint("base", 0, i, 0, 0, -e.p, e.n[0] + e.p - 2);
  double t = vp_fnunit("t", 0, i, 0, 0);
  vp_eq("linear interpolant at every point of the target field", out(i, 0, 0), (1 - t) * vp_fn("a", 0, B, 0, 0) + t * vp_fn("a", 0, B + 1, 0, 0));
  Cell z = vp_cell<1>(e, "gi", "gj", "gk", true);
  vp_keepS<1>("interpolated field kept", a, "a", z);
  Cell y = vp_cell<1>(f, "yi", "yj", "yk", true);
  vp_eq("points kept", x(y.c[0], 0, 0)[1], vp_fn("x", 1, y.c[0], 0, 0));
  vp_assume(vp_outside<1>(f, y));
  vp_reach("ghost of the target");
  vp_keepS<1>("ghost layer of the target kept", out, "out", y);
}
