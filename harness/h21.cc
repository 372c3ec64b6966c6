// the containers of a level set and of its velocity: every field its own storage, every accessor its own field
#include "mkgrid.h"
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
static int vals(const double &) { return 1; }
static int vals(const Vec3<double> &) { return 3; }
static int vals(const Mat3<double> &) { return 9; }
template <int N>
static int vals(const VecN<double, N> &)
{
  return N;
}
static double val(const double &v, int) { return v; }
template <typename T>
static double val(const T &v, int s)
{
  return v[s];
}
static void put(double &v, int, double w) { v = w; }
template <typename T>
static void put(T &v, int s, double w)
{
  v[s] = w;
}
template <typename A>
static void fill(A &a, const Cell &c, const char *fam)
{
  typename A::value_type &v = a(c.c[0], c.c[1], c.c[2]);
  for (int s = 0; s < vals(v); ++s) put(v, s, vp_fn(fam, s, 0, 0, 0));
}
// cell c holds what was put there, cell o is still zero
template <typename A>
static void holds(const char *name, const A &a, const Cell &c, const Cell &o, const char *fam)
{
  const typename A::value_type &v = a(c.c[0], c.c[1], c.c[2]);
  for (int s = 0; s < vals(v); ++s) vp_eq(name, val(v, s), vp_fn(fam, s, 0, 0, 0));
  if (c.c[0] == o.c[0] && c.c[1] == o.c[1] && c.c[2] == o.c[2]) return;
  const typename A::value_type &w = a(o.c[0], o.c[1], o.c[2]);
  for (int s = 0; s < vals(w); ++s) vp_eq("other cells start at zero and stay so", val(w, s), 0);
}
template <typename A>
static void zero(const A &a, const Cell &c, long total)
{
  const typename A::value_type &v = a(c.c[0], c.c[1], c.c[2]);
  for (int s = 0; s < vals(v); ++s) vp_eq("a field starts at zero", val(v, s), 0);
  vp_eqi("one value per cell of the padded box", (long)a.size(), total);
}
template <int DIM>
static void levelset()
{
  typedef Grid<double, DIM> G;
  const Ext<DIM> e = vp_ext<DIM>(0);
  G g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, vp_box());
  Levelset<G, double> ls(g);
  const Levelset<G, double> &k = ls;
  const int mixed = DIM == 1 ? 0 : DIM == 2 ? 1 : 4;
  vp_eqi("number of mixed derivatives", G::num_mixed_derivatives, mixed);
  vp_eqi("mixed derivatives of a cell", k.phiMixedDerivatives()(0, 0, 0).size(), mixed);
  vp_eqi("mixed derivatives of a cell at the previous time", k.phiMixedDerivativesPrev()(0, 0, 0).size(), mixed);
  vp_check("the grid of a level set", &k.grid() == &g && &k.phi().grid() == &g && &k.psi().grid() == &g && &k.phiMixedDerivatives().grid() == &g);
  vp_check("the grid of the previous level set", &k.phiPrev().grid() == &g && &k.psiPrev().grid() == &g && &k.phiMixedDerivativesPrev().grid() == &g);
  vp_check("the grid of the interpolated level set", &k.phiInterpPrev().grid() == &g && &k.psiInterpPrev().grid() == &g);
  const Cell c = vp_cell<DIM>(e, "ci", "cj", "ck", true), o = vp_cell<DIM>(e, "oi", "oj", "ok", true);
  const long t = vp_total<DIM>(e);
  zero(k.phi(), c, t), zero(k.psi(), c, t), zero(k.phiMixedDerivatives(), c, t);
  zero(k.phiPrev(), c, t), zero(k.psiPrev(), c, t), zero(k.phiMixedDerivativesPrev(), c, t);
  zero(k.phiInterpPrev(), c, t), zero(k.psiInterpPrev(), c, t);
  fill(ls.phi(), c, "a"), fill(ls.psi(), c, "b"), fill(ls.phiMixedDerivatives(), c, "c");
  fill(ls.phiPrev(), c, "d"), fill(ls.psiPrev(), c, "e"), fill(ls.phiMixedDerivativesPrev(), c, "f");
  fill(ls.phiInterpPrev(), c, "g"), fill(ls.psiInterpPrev(), c, "h");
  holds("level set", k.phi(), c, o, "a"), holds("gradient", k.psi(), c, o, "b"), holds("mixed derivatives", k.phiMixedDerivatives(), c, o, "c");
  holds("previous level set", k.phiPrev(), c, o, "d"), holds("previous gradient", k.psiPrev(), c, o, "e");
  holds("previous mixed derivatives", k.phiMixedDerivativesPrev(), c, o, "f");
  holds("interpolated level set", k.phiInterpPrev(), c, o, "g"), holds("interpolated gradient", k.psiInterpPrev(), c, o, "h");
  vp_reach("end");
}
extern "C" void vpC21_levelset_1d() { levelset<1>(); }
extern "C" void vpC21_levelset_2d() { levelset<2>(); }
extern "C" void vpC21_levelset_3d() { levelset<3>(); }
// two level sets of one grid do not share anything
template <int DIM>
static void separate()
{
  typedef Grid<double, DIM> G;
  const Ext<DIM> e = vp_ext<DIM>(0);
  G g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, vp_box());
  Levelset<G, double> p(g), q(g);
  LevelsetVelocity<G, double> u(g), v(g);
  const Cell c = vp_cell<DIM>(e, "ci", "cj", "ck", true);
  const long t = vp_total<DIM>(e);
  fill(p.phi(), c, "a"), fill(p.psi(), c, "b"), fill(p.phiMixedDerivatives(), c, "c");
  fill(p.phiPrev(), c, "d"), fill(p.psiPrev(), c, "e"), fill(p.phiMixedDerivativesPrev(), c, "f");
  fill(p.phiInterpPrev(), c, "g"), fill(p.psiInterpPrev(), c, "h");
  fill(u.velocity(), c, "u"), fill(u.velocityGradient(), c, "w");
  const Levelset<G, double> &k = q;
  const LevelsetVelocity<G, double> &m = v;
  zero(k.phi(), c, t), zero(k.psi(), c, t), zero(k.phiMixedDerivatives(), c, t);
  zero(k.phiPrev(), c, t), zero(k.psiPrev(), c, t), zero(k.phiMixedDerivativesPrev(), c, t);
  zero(k.phiInterpPrev(), c, t), zero(k.psiInterpPrev(), c, t);
  zero(m.velocity(), c, t), zero(m.velocityGradient(), c, t);
  vp_reach("end");
}
extern "C" void vpC21_separate_1d() { separate<1>(); }
extern "C" void vpC21_separate_2d() { separate<2>(); }
extern "C" void vpC21_separate_3d() { separate<3>(); }
template <int DIM>
static void velocity()
{
  typedef Grid<double, DIM> G;
  const Ext<DIM> e = vp_ext<DIM>(0);
  G g = vp_grid<DIM>(e);
  vp_generate<DIM>(g, e, vp_box());
  LevelsetVelocity<G, double> lv(g);
  const LevelsetVelocity<G, double> &k = lv;
  vp_check("the grid of a velocity", &k.grid() == &g && &k.velocity().grid() == &g && &k.velocityGradient().grid() == &g);
  const Cell c = vp_cell<DIM>(e, "ci", "cj", "ck", true), o = vp_cell<DIM>(e, "oi", "oj", "ok", true);
  const long t = vp_total<DIM>(e);
  zero(k.velocity(), c, t), zero(k.velocityGradient(), c, t);
  fill(lv.velocity(), c, "u"), fill(lv.velocityGradient(), c, "w");
  holds("velocity", k.velocity(), c, o, "u"), holds("velocity gradient", k.velocityGradient(), c, o, "w");
  GALS::INPUT_FIELDS::Velocity iv;
  GALS::INPUT_FIELDS::Levelset il;
  iv.center.resize(3);
  const GALS::ANALYTICAL_FIELDS::Velocity<G, double> av(g, iv);
  const GALS::ANALYTICAL_FIELDS::Levelset<G, double> al(g, il);
  vp_check("the grid of an analytical field", &av.grid() == &g && &al.grid() == &g);
  vp_reach("end");
}
extern "C" void vpC21_velocity_1d() { velocity<1>(); }
extern "C" void vpC21_velocity_2d() { velocity<2>(); }
extern "C" void vpC21_velocity_3d() { velocity<3>(); }
// what one interpolated point is made of
extern "C" void vpC21_fields()
{
  InterpolatedFields<Vec3<double>> f, h;
  vp_eq("starts at zero", f.phi_interpolated, 0);
  for (int s = 0; s < 3; ++s) vp_eq("starts at zero", f.psi_interpolated[s], 0);
  f.phi_interpolated = vp_real("v");
  for (int s = 0; s < 3; ++s) f.psi_interpolated[s] = vp_fn("p", s, 0, 0, 0);
  h = f;
  f.phi_interpolated = 0, f.psi_interpolated = Vec3<double>();
  vp_eq("copied", h.phi_interpolated, vp_real("v"));
  for (int s = 0; s < 3; ++s) vp_eq("copied", h.psi_interpolated[s], vp_fn("p", s, 0, 0, 0));
  vp_reach("end");
}
