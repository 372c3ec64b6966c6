// The advection program, run on any document
#include <sstream>
#include "vp.h"
// The driver is checked against the contracts of the two steps it takes (their bodies: C07, C12, C14):
// each reads a padded grid and leaves any values in the fields it writes, and nothing else.
extern "C" int vp_any_int();  // another integer on every call
static double elapsed, end_time, first, last, moves[2], step;
static int at[2];  // any cell
static bool began, rotating;
static void arbitrary(Array<Grid<double, 2>, double> &a)
{
  const Vec3<int> n = a.numCells();
  const int t = vp_any_int();
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j) a(i, j, 0) = vp_fn("stepped", t, i, j, 0);
}
static void arbitrary(Array<Grid<double, 2>, Vec3<double>> &a)
{
  const Vec3<int> n = a.numCells();
  const int t = vp_any_int();
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j)
      for (int s = 0; s < 3; ++s) a(i, j, 0)[s] = vp_fn("stepped", t, i, j, s);
}
#include "gals/cpu/gradient.h"
#include "gals/cpu/temporal.h"
namespace GALS
{
namespace CPU
{
template <>
void Gradient<double, Grid<double, 2>, ThirdOrder<double, Grid<double, 2>>>::compute(const Array<Grid<double, 2>, double> &a, Array<Grid<double, 2>, Vec3<double>> &g)
{
  vp_check("two layers around the field", a.grid().getPadding() >= 2 && g.grid().getPadding() >= 2);
  vp_eqi("as many cells", g.numCells()[0], a.numCells()[0]);
  vp_eqi("as many cells", g.numCells()[1], a.numCells()[1]);
  arbitrary(g);
}
template <>
void Temporal<double, Grid<double, 2>, TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, Grid<double, 2>>>::compute(const double dt, const LevelsetVelocity<Grid<double, 2>, double> &u, Levelset<Grid<double, 2>, double> &l)
{
  const Vec3<double> &v = u.velocity()(at[0], at[1], 0);
  for (int s = 0; s < 2; ++s) vp_eq("cells move with the velocity of the document", v[s], moves[s]);
  vp_check("and not for longer than one time step of the document", !rotating || (dt <= step && -dt <= step));
  // another step only while the end time is ahead, and no step smaller than the first one: they are not endless
  vp_check("no step after the end time", !began || elapsed <= end_time);
  vp_check("time goes on", !began || (first > 0 && last >= first));
  if (!began) first = dt;
  began = true, last = dt, elapsed += dt;
  arbitrary(l.phi());
  arbitrary(l.psi());
}
}  // namespace CPU
}  // namespace GALS
#define main vp_advection_main
#include "applications/advection/main.cc"
#undef main
extern "C" {
int vp_key(int parent, const char *key);
int vp_keys(int parent, const std::string *key);
void vp_same_text(const char *name, const std::ostringstream *got, const std::ostringstream *want);
void vp_read_file(std::ostringstream *into, const std::string *path);
void vp_any_iteration(int on);  // loops that do not count are judged by one arbitrary iteration
}
static bool has(int id) { return vp_fnint("yaml_has", 0, id, 0, 0, 0, 1) != 0; }
static int items(int id) { return vp_fnint("yaml_len", 0, id, 0, 0, 0, 1000000); }
static void need(int key) { vp_assume(has(key)); }
static std::string input, output;
static int ops, there, known;
static bool quiet;
static bool named(const std::string &p) { return p == output + "/" || p == output; }
extern "C" int fsop(int o, const std::string *p)
{
  if (o == 0 || o > 4) {  // the document is a file, the directory of the document is one if it exists
    if (!quiet && named(*p)) return o == 5 ? 0 : ops || vp_int("existed", 0, 1);
    return *p == input ? o == 6 ? 0 : there : vp_int("others", 0, 1);
  }
  vp_check("only a directory is created", o == 2 || o == 4);
  vp_check("nothing is created when there is nothing to do", !quiet);
  vp_check("the directory of the document is created", named(*p));
  vp_check("once", ops == 0);
  ++ops;
  return 1;
}
static void run(bool rotation, bool fixed_step)
{
  vp_any_iteration(1);
  vp_text(&input, "file", 0);
  const int doc = vp_keys(0, &input);
  int s = vp_key(doc, "general");
  need(s), need(vp_key(s, "output_directory"));
  vp_text(&output, "yaml", vp_key(s, "output_directory"));
  s = vp_key(doc, "grid");
  const int x = vp_key(s, "box");
  int k_lo[3], k_hi[3], k_cells;
  k_lo[0] = vp_key(x, "x_min"), k_lo[1] = vp_key(x, "y_min"), k_lo[2] = vp_key(x, "z_min");
  k_hi[0] = vp_key(x, "x_max"), k_hi[1] = vp_key(x, "y_max"), k_hi[2] = vp_key(x, "z_max");
  k_cells = vp_key(s, "cells");
  need(s), need(x), need(k_cells);
  for (int d = 0; d < 3; ++d) need(k_lo[d]), need(k_hi[d]);
  vp_assume(items(k_cells) == 3);
  s = vp_key(doc, "time");
  const int t_dt = vp_key(s, "dt"), t_end = vp_key(s, "end"), t_fixed = vp_key(s, "constant_dt");
  need(s), need(vp_key(s, "start")), need(vp_key(s, "end")), need(t_dt), need(t_fixed);
  s = vp_key(doc, "velocity");
  const int c = vp_key(s, "center");
  need(s), need(vp_key(s, "name")), need(vp_key(s, "vector")), need(c), need(vp_key(s, "gradient")), need(vp_key(vp_key(s, "gradient"), "scheme"));
  vp_assume(items(c) == 3);
  std::string name;
  vp_text(&name, "yaml", vp_key(s, "name"));
  s = vp_key(doc, "levelset");
  need(s), need(vp_key(s, "name")), need(vp_key(s, "center")), need(vp_key(s, "radius")), need(vp_key(s, "gradient")), need(vp_key(vp_key(s, "gradient"), "scheme"));
  vp_assume(items(vp_key(s, "center")) == 3);
  // counts and box
  int n[3];
  double lo[3], len[3];
  for (int d = 0; d < 3; ++d) {
    n[d] = vp_fnint("yaml_int", 1, k_cells, d, 0, -2147483647, 2147483647);
    vp_assume(n[d] >= 1), vp_assume(n[d] <= 1000000000);
    lo[d] = vp_fn("yaml_num", 0, k_lo[d], 0, 0), len[d] = vp_fn("yaml_num", 0, k_hi[d], 0, 0) - lo[d];
    vp_assume(len[d] > 0);
  }
  vp_assume(((long)n[0] + 4) * ((long)n[1] + 4) <= VP_MAXN);
  vp_assume(n[2] == 1);
  const double om = 3.141592653589793 / 3.15, hx = len[0] / n[0], hy = len[1] / n[1];
  const double cx = vp_fn("yaml_num", 1, c, 0, 0), cy = vp_fn("yaml_num", 1, c, 1, 0);
  const bool rotates = name == "CIRCULAR";
  std::string fixed;
  vp_text(&fixed, "yaml", t_fixed);
  vp_assume(rotates == rotation && (fixed != "NO") == fixed_step);
  if (fixed_step) vp_assume(vp_fn("yaml_num", 0, t_dt, 0, 0) > 0);
  // no cell moves by more than one cell size in a step if that is so by the document: the steps taken are those of the document
  at[0] = vp_int("at_i", 0, n[0] - 1), at[1] = vp_int("at_j", 0, n[1] - 1);
  rotating = rotation;
  if (fixed_step)
    step = vp_fn("yaml_num", 0, t_dt, 0, 0);
  else {
    const double hz = len[2] / n[2], m = hx < hy ? hx : hy;
    step = 0.5 * (m < hz ? m : hz);
  }
  moves[0] = rotation ? om * (cy - (lo[1] + (at[1] + 0.5) * hy)) : 0, moves[1] = rotation ? om * (lo[0] + (at[0] + 0.5) * hx - cx) : 0;
  elapsed = first = last = 0, began = false, end_time = vp_fn("yaml_num", 0, t_end, 0, 0);
  vp_assume(input != output + "/"), vp_assume(input != output);  // a document is a file
  ops = 0, there = 1, quiet = false;
  char *argv[3] = {(char *)"advection", (char *)input.c_str(), 0};
  vp_reach("start");
  const int r = vp_advection_main(2, argv);
  vp_reach("end");
  vp_eqi("the program succeeds", r, 0);
  vp_check("the directory of the document is there", ops == 1 || vp_int("existed", 0, 1));
  std::ostringstream got, want;
  const std::string path = output + "/velocity";
  vp_read_file(&got, &path);
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j)
      for (int k = 0; k < n[2]; ++k) {
      const double x = lo[0] + (i + 0.5) * hx, y = lo[1] + (j + 0.5) * hy;
      want << x << "\t" << y << "\t" << 0. << "\t" << (rotates ? om * (cy - y) : 0.) << "\t" << (rotates ? om * (x - cx) : 0.) << "\t" << 0. << "\n";
    }
  vp_same_text("the velocity of the document is written", &got, &want);
}
extern "C" void vpC24_rotation() { run(true, false); }
extern "C" void vpC24_rotation_fixed_step() { run(true, true); }
extern "C" void vpC24_other() { run(false, false); }
extern "C" void vpC24_other_fixed_step() { run(false, true); }
static void nothing(int argc)
{
  vp_text(&input, "file", 0);
  ops = 0, there = 0, quiet = true;
  char *argv[3] = {(char *)"advection", argc > 1 ? (char *)input.c_str() : 0, 0};
  vp_reach("start");
  vp_expect_exit("the program ends");
  vp_advection_main(argc, argv);
  vp_no_exit("the program ends");
}
extern "C" void vpC24_no_document() { nothing(1); }
extern "C" void vpC24_missing_document() { nothing(2); }
