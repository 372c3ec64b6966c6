// Native meaning of the C19 property: the real parser with the real YAML library on generated documents.
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include "gals/input-fields/input-fields.h"
#include "gals/input-parser.h"
extern "C" {
int vp_int(const char *name, int lo, int hi);
double vp_real(const char *name);
double vp_fn(const char *fam, int m, int i, int j, int k);
int vp_fnint(const char *fam, int m, int i, int j, int k, int lo, int hi);
void vp_check(const char *name, bool c);
void vp_eq(const char *name, double got, double want);
void vp_eqi(const char *name, long got, long want);
}
static std::string num(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
static std::string word(const char *n)
{
  static const char *W[] = {"CIRCULAR", "CIRCLE", "ANALYTICAL", "YES", "NO", "out", "SECOND_ORDER_CENTRAL", "x y", "a_b", "Zz", "", "~", " padded ", "1e3", "/tmp/a/b/", "circular", "null", "true"};
  const int w = vp_int(n, 0, 17);
  return std::string(W[w]) + (w < 10 && vp_int((std::string(n) + "_tail").c_str(), 0, 1) ? std::string(1, char('a' + w)) : std::string());
}
static std::string quoted(const char *n) { return "\"" + word(n) + "\""; }
static int len(const char *f) { return vp_fnint((std::string(f) + "_len").c_str(), 0, 0, 0, 0, 0, 1) ? 3 : vp_fnint((std::string(f) + "_any").c_str(), 0, 0, 0, 0, 0, 7); }
static std::string list(const char *f, int n)
{
  std::string s = "[";
  for (int i = 0; i < n; ++i) s += (i ? ", " : "") + num(vp_fn(f, 0, i, 0, 0));
  return s + "]";
}
static void document(bool again)
{
  const bool G = vp_int("has_general", 0, 1), B = vp_int("has_grid", 0, 3) > 0, T = vp_int("has_time", 0, 3) > 0, V = vp_int("has_velocity", 0, 3) > 0,
             L = vp_int("has_levelset", 0, 3) > 0;
  int n[3];
  for (int i = 0; i < 3; ++i) n[i] = vp_fnint("cells", 0, i, 0, 0, 1, 500);
  std::string sec[5];
  if (G) sec[0] = "general:\n  output_directory: " + quoted("dir") + "\n";
  if (B) {
    sec[1] = "grid:\n  box:\n";
    const char *k[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    for (int i = 0; i < 6; ++i) sec[1] += std::string("    ") + k[i] + ": " + num(vp_fn("box", 0, i, 0, 0)) + "\n";
    sec[1] += "  cells: [" + std::to_string(n[0]) + ", " + std::to_string(n[1]) + ", " + std::to_string(n[2]) + "]\n";
  }
  if (T) sec[2] = "time:\n  start: " + num(vp_real("start")) + "\n  end: " + num(vp_real("end")) + "\n  dt: " + num(vp_real("dt")) + "\n  constant_dt: " + quoted("cdt") + "\n";
  if (V) sec[3] = "velocity:\n  name: " + quoted("vname") + "\n  vector: " + list("vector", len("vector")) + "\n  center: " + list("vcenter", len("vcenter")) + "\n  gradient:\n    scheme: " + quoted("vgrad") + "\n";
  if (L) sec[4] = "levelset:\n  name: " + quoted("lname") + "\n  center: " + list("lcenter", 3) + "\n  radius: " + num(vp_real("radius")) + "\n  gradient:\n    scheme: " + quoted("lgrad") + "\n";
  std::string doc;
  const int first = vp_int("first", 0, 4);
  for (int i = 0; i < 5; ++i) doc += sec[(first + i) % 5];
  if (doc.empty()) doc = "{}\n";
  char name[] = "vpdocXXXXXX";
  const int fd = mkstemp(name);
  if (fd < 0 || write(fd, doc.c_str(), doc.size()) != (ssize_t)doc.size()) _exit(9);
  close(fd);

  GALS::INPUT_FIELDS::InputFields in;
  GALS::INPUT_FIELDS::Grid &g = *in.m_grid;
  double *bx[] = {&g.x_min, &g.x_max, &g.y_min, &g.y_max, &g.z_min, &g.z_max};
  int *nn[] = {&g.nx, &g.ny, &g.nz};
  for (int i = 0; i < 6; ++i) *bx[i] = 100 + i;
  for (int i = 0; i < 3; ++i) *nn[i] = 1000 + i;
  GALS::INPUT_FIELDS::Time &t = *in.m_time;
  t.start = 50, t.end = 51, t.dt = 52, t.constant_dt = "old_cdt";
  in.m_general->output_directory = "old_dir";
  GALS::INPUT_FIELDS::Velocity &v = *in.m_velocity;
  v.name = "old_vname", v.gradient_scheme = "old_vgrad", v.vector = {61, 62, 63}, v.center = {64, 65, 66};
  GALS::INPUT_FIELDS::Levelset &l = *in.m_levelset;
  l.name = "old_lname", l.gradient_scheme = "old_lgrad", l.radius = 70, l.center = GALS::CPU::Vec3<double>(71, 72, 73);
  GALS::INPUT_PARSER::InputParser parser;
  if (again) {
    char other[] = "vpoldXXXXXX";
    const std::string old =
        "general: {output_directory: before}\ngrid: {box: {x_min: -7, x_max: 7.5, y_min: -8, y_max: 8.5, z_min: -9, z_max: 9.5}, cells: [501, 502, 503]}\n"
        "time: {start: 10, end: 20, dt: 0.125, constant_dt: MAYBE}\nvelocity: {name: BEFORE, vector: [31, 32, 33], center: [34, 35, 36], gradient: {scheme: EARLIER}}\n"
        "levelset: {name: FORMER, center: [37, 38, 39], radius: 40, gradient: {scheme: OLDER}}\n";
    const int fd = mkstemp(other);
    if (fd < 0 || write(fd, old.c_str(), old.size()) != (ssize_t)old.size()) _exit(9);
    close(fd);
    GALS::INPUT_FIELDS::InputFields was;
    parser.parse(other, &was);
    unlink(other);
  }
  parser.parse(name, &in);
  unlink(name);

  vp_check("output directory", in.m_general->output_directory == (G ? word("dir") : "old_dir"));
  for (int i = 0; i < 6; ++i) vp_eq("domain bound", *bx[i], B ? vp_fn("box", 0, i, 0, 0) : 100 + i);
  for (int i = 0; i < 3; ++i) vp_eqi("cell count", *nn[i], B ? n[i] : 1000 + i);
  vp_eq("start time", t.start, T ? vp_real("start") : 50);
  vp_eq("end time", t.end, T ? vp_real("end") : 51);
  vp_eq("time step", t.dt, T ? vp_real("dt") : 52);
  vp_check("fixed time step", t.constant_dt == (T ? word("cdt") : "old_cdt"));
  vp_check("velocity name", v.name == (V ? word("vname") : "old_vname"));
  vp_check("velocity gradient scheme", v.gradient_scheme == (V ? word("vgrad") : "old_vgrad"));
  const int nv = V ? len("vector") : 3, nc = V ? len("vcenter") : 3;
  vp_eqi("velocity vector length", v.vector.size(), nv);
  vp_eqi("velocity centre length", v.center.size(), nc);
  for (int i = 0; i < nv; ++i) vp_eq("velocity vector", v.vector[i], V ? vp_fn("vector", 0, i, 0, 0) : 61 + i);
  for (int i = 0; i < nc; ++i) vp_eq("velocity centre", v.center[i], V ? vp_fn("vcenter", 0, i, 0, 0) : 64 + i);
  for (int i = 0; i < 3; ++i) vp_eq("level set centre", l.center[i], L ? vp_fn("lcenter", 0, i, 0, 0) : 71 + i);
  vp_check("level set name", l.name == (L ? word("lname") : "old_lname"));
  vp_check("level set gradient scheme", l.gradient_scheme == (L ? word("lgrad") : "old_lgrad"));
  vp_eq("level set radius", l.radius, L ? vp_real("radius") : 70);
}
extern "C" void vpC19_document() { document(false); }
extern "C" void vpC19_again() { document(true); }
