#include "mkgrid.h"
// lemma: the digits of a mixed radix number are unique (proved by vpC01_lemma, instantiated below)
static bool unique_digits(long a, long r, long x, long s, long y) { return (a * r + x != a * s + y) | ((r == s) & (x == y)); }
extern "C" void vpC01_lemma()
{
  const int a = vp_int("a", 1, 2147483647), r = vp_int("r", 0, 2147483647), s = vp_int("s", 0, 2147483647);
  const int x = vp_int("x", 0, a - 1), y = vp_int("y", 0, a - 1);
  vp_check("digits are unique", unique_digits(a, r, x, s, y));
  vp_reach("end");
}
static void use_lemma(long a, long r, long x, long s, long y)
{
  vp_check("lemma applies", (a >= 1) & (a <= VP_MAXN) & (r >= 0) & (s >= 0) & (r <= VP_MAXN) & (s <= VP_MAXN) & (x >= 0) & (x < a) & (y >= 0) & (y < a));
  vp_assume(unique_digits(a, r, x, s, y));
}
// every cell of the padded box has a slot of the storage, and two cells never share one
template <int DIM>
static void bijection()
{
  vp_large(1);
  const Ext<DIM> e = vp_ext<DIM>(0);
  Grid<double, DIM> g = vp_grid<DIM>(e);
  g.setPadding(e.p);
  const Cell a = vp_cell<DIM>(e, "ai", "aj", "ak", true), b = vp_cell<DIM>(e, "bi", "bj", "bk", true);
  const long s = (long)g.index(a.c[0], a.c[1], a.c[2]), t = (long)g.index(Vec3<int>(b.c[0], b.c[1], b.c[2]));
  vp_check("slot is not before the storage", s >= 0);
  vp_check("slot is not past the storage", s < vp_total<DIM>(e));
  vp_check("slot of a node id is not before the storage", t >= 0);
  vp_check("slot of a node id is not past the storage", t < vp_total<DIM>(e));
  if (DIM > 1) {
    long A[3], x[3], y[3];
    for (int d = 0; d < 3; ++d) A[d] = (long)e.n[d] + 2 * (long)e.q[d], x[d] = (long)a.c[d] + e.q[d], y[d] = (long)b.c[d] + e.q[d];
    use_lemma(A[0], DIM == 3 ? A[1] * x[2] + x[1] : x[1], x[0], DIM == 3 ? A[1] * y[2] + y[1] : y[1], y[0]);
    if (DIM == 3) use_lemma(A[1], x[2], x[1], y[2], y[1]);
  }
  vp_check("different cells have different slots", s != t || (a.c[0] == b.c[0] && a.c[1] == b.c[1] && a.c[2] == b.c[2]));
  vp_check("the same cell has the same slot", s == t || a.c[0] != b.c[0] || a.c[1] != b.c[1] || a.c[2] != b.c[2]);
  vp_reach("end");
}
extern "C" void vpC01_1d() { bijection<1>(); }
extern "C" void vpC01_2d() { bijection<2>(); }
extern "C" void vpC01_3d() { bijection<3>(); }
// the coordinates along the axes a grid does not have are ignored, whatever they are
extern "C" void vpC01_inactive_1d()
{
  const Ext<1> e = vp_ext<1>(0);
  Grid<double, 1> g = vp_grid<1>(e);
  g.setPadding(e.p);
  const Cell a = vp_cell<1>(e, "ai", "aj", "ak", true);
  const int j = vp_int("anyj", -2147483647 - 1, 2147483647), k = vp_int("anyk", -2147483647 - 1, 2147483647);
  vp_eqi("y and z are ignored in one dimension", (long)g.index(a.c[0], j, k), (long)g.index(a.c[0], 0, 0));
  vp_eqi("y and z of a node id are ignored in one dimension", (long)g.index(Vec3<int>(a.c[0], j, k)), (long)g.index(a.c[0], 0, 0));
  vp_reach("end");
}
extern "C" void vpC01_inactive_2d()
{
  const Ext<2> e = vp_ext<2>(0);
  Grid<double, 2> g = vp_grid<2>(e);
  g.setPadding(e.p);
  const Cell a = vp_cell<2>(e, "ai", "aj", "ak", true);
  const int k = vp_int("anyk", -2147483647 - 1, 2147483647);
  vp_eqi("z is ignored in two dimensions", (long)g.index(a.c[0], a.c[1], k), (long)g.index(a.c[0], a.c[1], 0));
  vp_eqi("z of a node id is ignored in two dimensions", (long)g.index(Vec3<int>(a.c[0], a.c[1], k)), (long)g.index(a.c[0], a.c[1], 0));
  vp_reach("end");
}
// a grid that was used with another padding before has the slots of a new one
template <int DIM>
static void again()
{
  const Ext<DIM> e = vp_ext<DIM>(0);
  Ext<DIM> f = e;
  f.p = DIM == 3 ? 0 : vp_int("oldpad", 0, 268435455);  // three dimensions: no padding, products of both boxes are out of the solver's reach
  for (int d = 0; d < DIM; ++d) f.q[d] = f.p;
  vp_assume((long)f.n[0] + 2 * (long)f.q[0] <= VP_MAXN);
  if (DIM == 2) vp_assume(((long)f.n[0] + 2 * (long)f.q[0]) * ((long)f.n[1] + 2 * (long)f.q[1]) <= VP_MAXN);
  Grid<double, DIM> g = vp_grid<DIM>(e), h = vp_grid<DIM>(e);
  g.setPadding(f.p);
  g.index(0, 0, 0), g.index(Vec3<int>(0, 0, 0));
  g.setPadding(e.p), h.setPadding(e.p);
  const Cell a = vp_cell<DIM>(e, "ai", "aj", "ak", true);
  vp_eqi("slot after another padding", (long)g.index(a.c[0], a.c[1], a.c[2]), (long)h.index(a.c[0], a.c[1], a.c[2]));
  vp_eqi("slot of a node id after another padding", (long)g.index(Vec3<int>(a.c[0], a.c[1], a.c[2])), (long)h.index(Vec3<int>(a.c[0], a.c[1], a.c[2])));
  vp_reach("end");
}
extern "C" void vpC01_again_1d() { again<1>(); }
extern "C" void vpC01_again_2d() { again<2>(); }
extern "C" void vpC01_again_3d() { again<3>(); }
