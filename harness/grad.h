// Contract of the two gradient operators, scalar and vector field.
#pragma once
#include "vp.h"
#include "gals/cpu/gradient.h"

// stencil value times its denominator; ORDER 2: (f(+1)-f(-1)) / 2h ; ORDER 3: (2f(+1)+3f(0)-6f(-1)+f(-2)) / 6h
template <int ORDER>
double stencil(const char *fam, int m, int axis, int i, int j, int k)
{
  int x = axis == 0, y = axis == 1, z = axis == 2;
  if (ORDER == 2) return vp_fn(fam, m, i + x, j + y, k + z) - vp_fn(fam, m, i - x, j - y, k - z);
  return 2 * vp_fn(fam, m, i + x, j + y, k + z) + 3 * vp_fn(fam, m, i, j, k) - 6 * vp_fn(fam, m, i - x, j - y, k - z) +
         vp_fn(fam, m, i - 2 * x, j - 2 * y, k - 2 * z);
}

template <int DIM, int ORDER, template <typename, typename> class S, bool AGAIN = false>
void scalar_gradient()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(ORDER - 1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Array<G, double> a(g);
  Array<G, Vec3<double>> d(g);
  if (AGAIN) {  // the same objects, used before with another box and other values
    vp_generate<DIM>(g, e, vp_oldbox());
    vp_fillS<DIM>(a, e, "olda");
    vp_fillV<DIM>(d, e, "oldd");
    Gradient<double, G, S<double, G>>::compute(a, d);
    vp_generate<DIM>(g, e, b);
  }
  vp_fillS<DIM>(a, e, "a");
  vp_fillV<DIM>(d, e, "d");
  Gradient<double, G, S<double, G>>::compute(a, d);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  for (int s = 0; s < DIM; ++s)
    vp_eq("gradient component equals the difference stencil", d(i, j, k)[s] * ((ORDER == 2 ? 2 : 6) * b.len[s] / e.n[s]),
          stencil<ORDER>("a", 0, s, i, j, k));
  for (int s = DIM; s < 3; ++s) vp_eq("component along an inactive axis kept", d(i, j, k)[s], vp_fn("d", s, i, j, k));
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepS<DIM>("differentiated field kept", a, "a", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepV<DIM>("ghost layer of the gradient kept", d, "d", z);
}

template <int DIM, int ORDER, template <typename, typename> class S, bool AGAIN = false>
void vector_gradient()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(ORDER - 1);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Array<G, Vec3<double>> a(g);
  Array<G, Mat3<double>> d(g);
  if (AGAIN) {  // the same objects, used before with another box and other values
    vp_generate<DIM>(g, e, vp_oldbox());
    vp_fillV<DIM>(a, e, "olda");
    vp_fillM<DIM>(d, e, "oldd");
    Gradient<double, G, S<double, G>>::compute(a, d);
    vp_generate<DIM>(g, e, b);
  }
  vp_fillV<DIM>(a, e, "a");
  vp_fillM<DIM>(d, e, "d");
  Gradient<double, G, S<double, G>>::compute(a, d);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  for (int r = 0; r < 3; ++r)
    for (int s = 0; s < 3; ++s)
      if (r < DIM && s < DIM)
        vp_eq("matrix entry (r,s) is the derivative of component r along axis s", d(i, j, k)(r, s) * ((ORDER == 2 ? 2 : 6) * b.len[s] / e.n[s]),
              stencil<ORDER>("a", r, s, i, j, k));
      else
        vp_eq("entry of an inactive axis kept", d(i, j, k)(r, s), vp_fn("d", 3 * r + s, i, j, k));
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepV<DIM>("differentiated field kept", a, "a", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepM<DIM>("ghost layer of the gradient kept", d, "d", z);
}
