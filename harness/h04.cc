#include "mkgrid.h"
// how each kind of value an array can hold is written and read, entry by entry
static int vals(const double &) { return 1; }
static int vals(const Vec3<double> &) { return 3; }
static int vals(const Mat3<double> &) { return 9; }
template <int N>
static int vals(const VecN<double, N> &)
{
  return N;
}
static double val(const double &v, int) { return v; }
static double val(const Vec3<double> &v, int s) { return v[s]; }
static double val(const Mat3<double> &v, int s) { return v[s]; }
template <int N>
static double val(const VecN<double, N> &v, int s)
{
  return v[s];
}
static void put(double &v, int, double w) { v = w; }
static void put(Vec3<double> &v, int s, double w) { v[s] = w; }
static void put(Mat3<double> &v, int s, double w) { v[s] = w; }
template <int N>
static void put(VecN<double, N> &v, int s, double w)
{
  v[s] = w;
}
template <typename T>
static void make(T &v, const char *fam)
{
  for (int s = 0; s < vals(v); ++s) put(v, s, vp_fn(fam, s, 0, 0, 0));
}

template <int DIM, typename T>
struct Fix {
  Ext<DIM> e;
  Grid<double, DIM> g;
  Fix() : e(vp_ext<DIM>(0)), g(vp_grid<DIM>(e)) { vp_generate<DIM>(g, e, vp_box()); }
};
// a new array is zero everywhere, has the shape of its grid, and every access path is a view of the same cell
template <int DIM, typename T>
static void fresh()
{
  Fix<DIM, T> f;
  Array<Grid<double, DIM>, T> a(f.g);
  const Array<Grid<double, DIM>, T> &ca = a;
  vp_eqi("one value per cell of the padded box", (long)a.size(), vp_total<DIM>(f.e));
  vp_eqi("data has that size too", (long)ca.data().size(), vp_total<DIM>(f.e));
  for (int d = 0; d < 3; ++d) vp_eqi("cell counts", a.numCells()[d], f.e.n[d]);
  vp_check("attached grid", &a.grid() == &f.g);
  const Cell c = vp_cell<DIM>(f.e, "ci", "cj", "ck", true), o = vp_cell<DIM>(f.e, "oi", "oj", "ok", true);
  const Vec3<int> id(c.c[0], c.c[1], c.c[2]);
  const std::size_t slot = f.g.index(c.c[0], c.c[1], c.c[2]);
  T v;
  for (int s = 0; s < vals(v); ++s) vp_eq("new array is zero", val(ca(c.c[0], c.c[1], c.c[2]), s), 0);
  make(v, "v");
  const int how = vp_int("how", 0, 2);
  if (how == 0)
    a(c.c[0], c.c[1], c.c[2]) = v;
  else if (how == 1)
    a(id) = v;
  else
    a[slot] = v;
  for (int s = 0; s < vals(v); ++s) {
    const double w = vp_fn("v", s, 0, 0, 0);
    vp_eq("read back by coordinates", val(ca(c.c[0], c.c[1], c.c[2]), s), w);
    vp_eq("read back by node id", val(ca(id), s), w);
    vp_eq("read back by slot", val(ca[slot], s), w);
    vp_eq("read back through the raw data", val(ca.data()[slot], s), w);
    vp_eq("read back through the mutable view", val(a(id), s), w);
  }
  const bool same = c.c[0] == o.c[0] && c.c[1] == o.c[1] && c.c[2] == o.c[2];
  if (!same)
    for (int s = 0; s < vals(v); ++s) vp_eq("no other cell changes", val(ca(o.c[0], o.c[1], o.c[2]), s), 0);
  vp_reach("end");
}
// assignment copies every cell and leaves two independent arrays
template <int DIM, typename T>
static void assign()
{
  Fix<DIM, T> f;
  Array<Grid<double, DIM>, T> a(f.g), b(f.g);
  vp_fill<DIM>(f.e, [&](int i, int j, int k) {
    T &v = a(i, j, k);
    for (int s = 0; s < vals(v); ++s) put(v, s, vp_fn("old", s, i, j, k));
  });
  b = a;
  a = a;
  const Cell c = vp_cell<DIM>(f.e, "ci", "cj", "ck", true), o = vp_cell<DIM>(f.e, "oi", "oj", "ok", true);
  T v;
  make(v, "v");
  const int who = vp_int("who", 0, 1);
  if (who == 0)
    a(c.c[0], c.c[1], c.c[2]) = v;
  else
    b(c.c[0], c.c[1], c.c[2]) = v;
  const Array<Grid<double, DIM>, T> &other = who == 0 ? b : a, &mine = who == 0 ? a : b;
  for (int s = 0; s < vals(v); ++s) {
    const double was = vp_fn("old", s, o.c[0], o.c[1], o.c[2]);
    const bool hit = o.c[0] == c.c[0] && o.c[1] == c.c[1] && o.c[2] == c.c[2];
    vp_eq("assignment copies every cell; the other array is independent", val(other(o.c[0], o.c[1], o.c[2]), s), was);
    vp_eq("write changes one cell of one array", val(mine(o.c[0], o.c[1], o.c[2]), s), hit ? vp_fn("v", s, 0, 0, 0) : was);
  }
  vp_eqi("size after assignment", (long)other.size(), vp_total<DIM>(f.e));
  vp_reach("end");
}
// so does copy construction
template <int DIM, typename T>
static void copied()
{
  Fix<DIM, T> f;
  Array<Grid<double, DIM>, T> a(f.g);
  vp_fill<DIM>(f.e, [&](int i, int j, int k) {
    T &v = a(i, j, k);
    for (int s = 0; s < vals(v); ++s) put(v, s, vp_fn("old", s, i, j, k));
  });
  Array<Grid<double, DIM>, T> b(a);
  const Cell c = vp_cell<DIM>(f.e, "ci", "cj", "ck", true), o = vp_cell<DIM>(f.e, "oi", "oj", "ok", true);
  T v;
  make(v, "v");
  const int who = vp_int("who", 0, 1);
  if (who == 0)
    a(c.c[0], c.c[1], c.c[2]) = v;
  else
    b(c.c[0], c.c[1], c.c[2]) = v;
  const Array<Grid<double, DIM>, T> &other = who == 0 ? b : a, &mine = who == 0 ? a : b;
  for (int s = 0; s < vals(v); ++s) {
    const double was = vp_fn("old", s, o.c[0], o.c[1], o.c[2]);
    const bool hit = o.c[0] == c.c[0] && o.c[1] == c.c[1] && o.c[2] == c.c[2];
    vp_eq("a copy has every cell; the other array is independent", val(other(o.c[0], o.c[1], o.c[2]), s), was);
    vp_eq("write changes one cell of one array", val(mine(o.c[0], o.c[1], o.c[2]), s), hit ? vp_fn("v", s, 0, 0, 0) : was);
  }
  vp_eqi("size of a copy", (long)other.size(), vp_total<DIM>(f.e));
  vp_reach("end");
}
#define BOTH(n, D, ...)                                        \
  extern "C" void vpC04_fresh_##n() { fresh<D, __VA_ARGS__>(); } \
  extern "C" void vpC04_assign_##n() { assign<D, __VA_ARGS__>(); } \
  extern "C" void vpC04_copy_##n() { copied<D, __VA_ARGS__>(); }
BOTH(1s, 1, double)
BOTH(2s, 2, double)
BOTH(3s, 3, double)
BOTH(1v, 1, Vec3<double>)
BOTH(2v, 2, Vec3<double>)
BOTH(3v, 3, Vec3<double>)
BOTH(1m, 1, Mat3<double>)
BOTH(2m, 2, Mat3<double>)
BOTH(3m, 3, Mat3<double>)
BOTH(2n1, 2, VecN<double, 1>)
BOTH(1n0, 1, VecN<double, 0>)
BOTH(1n2, 1, VecN<double, 2>)
BOTH(2n2, 2, VecN<double, 2>)
BOTH(3n2, 3, VecN<double, 2>)
BOTH(3n4, 3, VecN<double, 4>)
