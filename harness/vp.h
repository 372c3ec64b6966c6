// Specification intrinsics.  The verifier (engine/) interprets them symbolically:
// vp_int & co. introduce universally quantified values, vp_assume is a
// precondition, vp_check / vp_eq are postconditions.  native/rt.cc gives the same
// harnesses an executable meaning, used to replay counterexamples.
#pragma once
#include <string>
extern "C" {
int vp_int(const char *name, int lo, int hi);             // any int in [lo,hi]; array extents and coordinates
double vp_real(const char *name);                         // any real
double vp_pos(const char *name);                          // any positive real
double vp_unit(const char *name);                         // any real in [0,1)
double vp_fn(const char *fam, int m, int i, int j, int k);      // any function of (m,i,j,k)
double vp_fnunit(const char *fam, int m, int i, int j, int k);  // same, values in [0,1)
int vp_fnint(const char *fam, int m, int i, int j, int k, int lo, int hi);
void vp_assume(bool c);
void vp_check(const char *name, bool c);
void vp_eq(const char *name, double got, double want);    // equality in exact arithmetic
void vp_eqi(const char *name, long got, long want);
void vp_reach(const char *name);                          // vacuity guard: must be reachable
void vp_expect_exit(const char *name);                    // from here on the process has to terminate
void vp_no_exit(const char *name);                        // ... and this point must not be reached
void vp_merge(int on);
void vp_text(std::string *out, const char *fam, int id);  // any text
int vp_native();           // 0 under the verifier, 1 in a native replay (rounding: no exact boundary points there)
void vp_large(int on);     // native replay only: draw large extents too
void vp_integers(const char *fam, int mult);  // native replay only: this family takes small multiples of mult
}
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
using namespace GALS::CPU;

#define VP_MAXN 2147483647

// what the verifier asks about a grid when the contract of Grid::index is used
template <int DIM>
inline void vp_shape_of(const Grid<double, DIM> *g, int *out)
{
  const Vec3<int> n = g->numCells();
  out[0] = n[0], out[1] = n[1], out[2] = n[2], out[3] = g->getPadding();
}
extern "C" {
__attribute__((used)) inline void gridshape_1(const Grid<double, 1> *g, int *out) { vp_shape_of<1>(g, out); }
__attribute__((used)) inline void gridshape_2(const Grid<double, 2> *g, int *out) { vp_shape_of<2>(g, out); }
__attribute__((used)) inline void gridshape_3(const Grid<double, 3> *g, int *out) { vp_shape_of<3>(g, out); }
}

template <int DIM>
struct Ext {
  int n[3], p, q[3];  // counts, padding, padding per axis
};

// any admissible grid: counts >= 1, padding >= minpad, padded box of at most INT_MAX cells
template <int DIM>
Ext<DIM> vp_ext(int minpad)
{
  Ext<DIM> e;
  e.n[0] = vp_int("nx", 1, 1073741823);
  e.n[1] = DIM > 1 ? vp_int("ny", 1, 1073741823) : 1;
  e.n[2] = DIM > 2 ? vp_int("nz", 1, 1073741823) : 1;
  e.p = vp_int("pad", minpad, 268435455);
  e.q[0] = e.p, e.q[1] = DIM > 1 ? e.p : 0, e.q[2] = DIM > 2 ? e.p : 0;
  vp_assume((long)e.n[0] + 2 * (long)e.q[0] <= VP_MAXN);
  if (DIM > 1)
    vp_assume(((long)e.n[0] + 2 * (long)e.q[0]) * ((long)e.n[1] + 2 * (long)e.q[1]) <= VP_MAXN);
  if (DIM > 2)
    vp_assume(((long)e.n[0] + 2 * (long)e.q[0]) * ((long)e.n[1] + 2 * (long)e.q[1]) * ((long)e.n[2] + 2 * (long)e.q[2]) <= VP_MAXN);
  return e;
}

struct Box {
  double lo[3], len[3];
};

inline Box vp_box()
{
  Box b;
  b.lo[0] = vp_real("xmin"), b.lo[1] = vp_real("ymin"), b.lo[2] = vp_real("zmin");
  b.len[0] = vp_pos("xlen"), b.len[1] = vp_pos("ylen"), b.len[2] = vp_pos("zlen");
  return b;
}

// another box: the one an object was used with before, in the contracts about histories
inline Box vp_oldbox()
{
  Box b;
  b.lo[0] = vp_real("oldx"), b.lo[1] = vp_real("oldy"), b.lo[2] = vp_real("oldz");
  b.len[0] = vp_pos("oldxlen"), b.len[1] = vp_pos("oldylen"), b.len[2] = vp_pos("oldzlen");
  return b;
}

template <int DIM>
void vp_generate(Grid<double, DIM> &g, const Ext<DIM> &e, const Box &b)
{
  g.setPadding(e.p);
  g.generate(b.lo[0], b.lo[0] + b.len[0], b.lo[1], b.lo[1] + b.len[1], b.lo[2], b.lo[2] + b.len[2]);
}

// any cell of the padded box / of the interior, relative to the box with the given padding
struct Cell {
  int c[3];
};

template <int DIM>
Cell vp_cell(const Ext<DIM> &e, const char *a, const char *b, const char *c, bool padded)
{
  Cell r;
  r.c[0] = vp_int(a, padded ? -e.q[0] : 0, e.n[0] - 1 + (padded ? e.q[0] : 0));
  r.c[1] = DIM > 1 ? vp_int(b, padded ? -e.q[1] : 0, e.n[1] - 1 + (padded ? e.q[1] : 0)) : 0;
  r.c[2] = DIM > 2 ? vp_int(c, padded ? -e.q[2] : 0, e.n[2] - 1 + (padded ? e.q[2] : 0)) : 0;
  return r;
}

template <int DIM, typename F>
void vp_fill(const Ext<DIM> &e, F f)
{
  for (int i = -e.q[0]; i < e.n[0] + e.q[0]; ++i)
    for (int j = -e.q[1]; j < e.n[1] + e.q[1]; ++j)
      for (int k = -e.q[2]; k < e.n[2] + e.q[2]; ++k) f(i, j, k);
}

// fields filled with arbitrary values, named by family; frame conditions on them
template <int DIM>
void vp_fillS(Array<Grid<double, DIM>, double> &a, const Ext<DIM> &e, const char *fam)
{
  vp_fill<DIM>(e, [&](int i, int j, int k) { a(i, j, k) = vp_fn(fam, 0, i, j, k); });
}
template <int DIM>
void vp_fillV(Array<Grid<double, DIM>, Vec3<double>> &a, const Ext<DIM> &e, const char *fam)
{
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    Vec3<double> &v = a(i, j, k);
    for (int s = 0; s < 3; ++s) v[s] = vp_fn(fam, s, i, j, k);
  });
}
template <int DIM>
void vp_fillM(Array<Grid<double, DIM>, Mat3<double>> &a, const Ext<DIM> &e, const char *fam)
{
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    Mat3<double> &v = a(i, j, k);
    for (int s = 0; s < 9; ++s) v[s] = vp_fn(fam, s, i, j, k);
  });
}
template <int DIM, int N>
void vp_fillN(Array<Grid<double, DIM>, VecN<double, N>> &a, const Ext<DIM> &e, const char *fam)
{
  if (N == 0) return;
  vp_fill<DIM>(e, [&](int i, int j, int k) {
    VecN<double, N> &v = a(i, j, k);
    for (int s = 0; s < N; ++s) v[s] = vp_fn(fam, s, i, j, k);
  });
}
template <int DIM>
void vp_keepS(const char *name, const Array<Grid<double, DIM>, double> &a, const char *fam, const Cell &z)
{
  vp_eq(name, a(z.c[0], z.c[1], z.c[2]), vp_fn(fam, 0, z.c[0], z.c[1], z.c[2]));
}
template <int DIM>
void vp_keepV(const char *name, const Array<Grid<double, DIM>, Vec3<double>> &a, const char *fam, const Cell &z)
{
  for (int s = 0; s < 3; ++s) vp_eq(name, a(z.c[0], z.c[1], z.c[2])[s], vp_fn(fam, s, z.c[0], z.c[1], z.c[2]));
}
template <int DIM>
void vp_keepM(const char *name, const Array<Grid<double, DIM>, Mat3<double>> &a, const char *fam, const Cell &z)
{
  for (int s = 0; s < 9; ++s) vp_eq(name, a(z.c[0], z.c[1], z.c[2])[s], vp_fn(fam, s, z.c[0], z.c[1], z.c[2]));
}
template <int DIM, int N>
void vp_keepN(const char *name, const Array<Grid<double, DIM>, VecN<double, N>> &a, const char *fam, const Cell &z)
{
  for (int s = 0; s < N; ++s) vp_eq(name, a(z.c[0], z.c[1], z.c[2])[s], vp_fn(fam, s, z.c[0], z.c[1], z.c[2]));
}
template <int DIM>
bool vp_outside(const Ext<DIM> &e, const Cell &z)
{
  return z.c[0] < 0 || z.c[0] >= e.n[0] || (DIM > 1 && (z.c[1] < 0 || z.c[1] >= e.n[1])) || (DIM > 2 && (z.c[2] < 0 || z.c[2] >= e.n[2]));
}
