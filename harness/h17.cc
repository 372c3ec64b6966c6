#include "herm.h"
#include "gals/analytical-fields/levelset.h"
// circle / sphere level set from a description, at arbitrary positions
template <int DIM, bool AGAIN = false>
static void run()
{
  typedef Grid<double, DIM> G;
  Ext<DIM> e = vp_ext<DIM>(0);
  Box b = vp_box();
  G g(e.n[0], e.n[1], e.n[2]);
  vp_generate<DIM>(g, e, b);
  Levelset<G, double> ls(g);
  vp_levelset<DIM>(ls, e);
  Array<G, Vec3<double>> x(g);
  if (AGAIN) {  // another circle before, into the same level set
    vp_generate<DIM>(g, e, vp_oldbox());
    vp_fillV<DIM>(x, e, "oldx");
    GALS::INPUT_FIELDS::Levelset in;
    in.name = "CIRCLE";
    in.center = Vec3<double>(vp_real("oldcx"), vp_real("oldcy"), vp_real("oldcz"));
    in.radius = vp_real("oldradius");
    GALS::ANALYTICAL_FIELDS::Levelset<G, double> a(g, in);
    a.compute(x, ls);
    vp_generate<DIM>(g, e, b);
    vp_levelset<DIM>(ls, e);
  }
  vp_fillV<DIM>(x, e, "x");
  GALS::INPUT_FIELDS::Levelset in;
  std::string name;
  vp_text(&name, "name", 0);
  in.name = name;
  in.center = Vec3<double>(vp_real("cx"), vp_real("cy"), vp_real("cz"));
  in.radius = vp_real("radius");
  vp_text(&in.gradient_scheme, "scheme", 0);
  GALS::ANALYTICAL_FIELDS::Levelset<G, double> a(g, in);
  a.compute(x, ls);
  Cell c = vp_cell<DIM>(e, "i", "j", "k", false);
  int i = c.c[0], j = c.c[1], k = c.c[2];
  vp_reach("interior cell");
  double v = ls.phi()(i, j, k);
  if (name == "CIRCLE") {
    vp_reach("circle");
    double d2 = 0;
    for (int s = 0; s < 3; ++s) {
      double d = vp_fn("x", s, i, j, k) - (s == 0 ? vp_real("cx") : s == 1 ? vp_real("cy") : vp_real("cz"));
      d2 += d * d;
    }
    vp_eq("distance to the centre minus the radius", (v + in.radius) * (v + in.radius), d2);
    vp_check("distance is not negative", v + in.radius >= 0);
  } else {
    vp_reach("unknown shape");
    vp_keepS<DIM>("unknown shape leaves the level set alone", ls.phi(), "phi_new", c);
  }
  Cell z = vp_cell<DIM>(e, "gi", "gj", "gk", true);
  vp_keepV<DIM>("positions kept", x, "x", z);
  vp_keepV<DIM>("gradient kept", ls.psi(), "psi_new", z);
  vp_keepS<DIM>("previous level set kept", ls.phiPrev(), "phi", z);
  vp_keepV<DIM>("previous gradient kept", ls.psiPrev(), "psi", z);
  vp_assume(vp_outside<DIM>(e, z));
  vp_reach("ghost cell");
  vp_keepS<DIM>("ghost layer kept", ls.phi(), "phi_new", z);
}
extern "C" void vpC17_1d() { run<1>(); }
extern "C" void vpC17_2d() { run<2>(); }
extern "C" void vpC17_3d() { run<3>(); }
extern "C" void vpC17_again_1d() { run<1, true>(); }
extern "C" void vpC17_again_2d() { run<2, true>(); }
extern "C" void vpC17_again_3d() { run<3, true>(); }
