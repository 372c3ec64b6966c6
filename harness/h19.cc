#include "vp.h"
#include "gals/input-fields/input-fields.h"
#include "gals/input-parser.h"
extern "C" {
int vp_key(int parent, const char *key);
int vp_keys(int parent, const std::string *key);
void vp_eqs(const char *name, const std::string *got, const std::string *want);
}
static double num(int id) { return vp_fn("yaml_num", 0, id, 0, 0); }
static double item(int id, int i) { return vp_fn("yaml_num", 1, id, i, 0); }
static bool has(int id) { return vp_fnint("yaml_has", 0, id, 0, 0, 0, 1) != 0; }
static int len(int id) { return vp_fnint("yaml_len", 0, id, 0, 0, 0, 1000000); }
// a complete section: every key of it is there
static void complete(int s, int key) { vp_assume(!has(s) | has(key)); }
static void text(const char *name, const std::string &got, int id, bool set, const char *fam)
{
  std::string want;
  vp_text(&want, set ? "yaml" : fam, set ? id : 0);
  vp_eqs(name, &got, &want);
}
// documents whose present sections are complete
static void sections(int doc)
{
  int s = vp_key(doc, "general");
  complete(s, vp_key(s, "output_directory"));
  s = vp_key(doc, "grid");
  int b = vp_key(s, "box");
  complete(s, b), complete(s, vp_key(b, "x_min")), complete(s, vp_key(b, "x_max")), complete(s, vp_key(b, "y_min")), complete(s, vp_key(b, "y_max"));
  complete(s, vp_key(b, "z_min")), complete(s, vp_key(b, "z_max")), complete(s, vp_key(s, "cells"));
  vp_assume(len(vp_key(s, "cells")) == 3);
  s = vp_key(doc, "time");
  complete(s, vp_key(s, "start")), complete(s, vp_key(s, "end")), complete(s, vp_key(s, "dt")), complete(s, vp_key(s, "constant_dt"));
  s = vp_key(doc, "velocity");
  complete(s, vp_key(s, "name")), complete(s, vp_key(s, "vector")), complete(s, vp_key(s, "center")), complete(s, vp_key(s, "gradient"));
  complete(s, vp_key(vp_key(s, "gradient"), "scheme"));
  s = vp_key(doc, "levelset");
  complete(s, vp_key(s, "name")), complete(s, vp_key(s, "center")), complete(s, vp_key(s, "radius")), complete(s, vp_key(s, "gradient"));
  complete(s, vp_key(vp_key(s, "gradient"), "scheme"));
  vp_assume(len(vp_key(s, "center")) == 3);
}
// every field of the description is the value of its key in the document; a section that is absent changes nothing
template <bool AGAIN>
static void document()
{
  GALS::INPUT_FIELDS::InputFields in;
  vp_text(&in.m_general->output_directory, "old_dir", 0);
  GALS::INPUT_FIELDS::Grid &g = *in.m_grid;
  g.x_min = vp_real("x0"), g.x_max = vp_real("x1"), g.y_min = vp_real("y0"), g.y_max = vp_real("y1"), g.z_min = vp_real("z0"), g.z_max = vp_real("z1");
  g.nx = 1, g.ny = 2, g.nz = 3;
  GALS::INPUT_FIELDS::Time &t = *in.m_time;
  t.start = vp_real("t0"), t.end = vp_real("t1"), t.dt = vp_real("dt");
  vp_text(&t.constant_dt, "old_cdt", 0);
  GALS::INPUT_FIELDS::Velocity &v = *in.m_velocity;
  vp_text(&v.name, "old_vname", 0);
  vp_text(&v.gradient_scheme, "old_vgrad", 0);
  const int nv = vp_int("oldnv", 0, 1000000), nc = vp_int("oldnc", 0, 1000000);
  v.vector.resize(nv), v.center.resize(nc);
  for (int i = 0; i < nv; ++i) v.vector[i] = vp_fn("oldv", 0, i, 0, 0);
  for (int i = 0; i < nc; ++i) v.center[i] = vp_fn("oldc", 0, i, 0, 0);
  GALS::INPUT_FIELDS::Levelset &l = *in.m_levelset;
  vp_text(&l.name, "old_lname", 0);
  vp_text(&l.gradient_scheme, "old_lgrad", 0);
  l.center = Vec3<double>(vp_real("lx"), vp_real("ly"), vp_real("lz"));
  l.radius = vp_real("lr");

  std::string file;
  vp_text(&file, "file", 0);
  const int doc = vp_keys(0, &file);
  sections(doc);
  GALS::INPUT_PARSER::InputParser parser;
  if (AGAIN) {  // another document before, with every section, into another description
    std::string other;
    vp_text(&other, "oldfile", 0);
    const int old = vp_keys(0, &other);
    vp_assume(has(vp_key(old, "general"))), vp_assume(has(vp_key(old, "grid"))), vp_assume(has(vp_key(old, "time")));
    vp_assume(has(vp_key(old, "velocity"))), vp_assume(has(vp_key(old, "levelset")));
    sections(old);
    GALS::INPUT_FIELDS::InputFields was;
    parser.parse(other, &was);
  }
  parser.parse(file, &in);
  vp_reach("parsed");

  int s = vp_key(doc, "general");
  text("output directory", in.m_general->output_directory, vp_key(s, "output_directory"), has(s), "old_dir");

  s = vp_key(doc, "grid");
  const int b = vp_key(s, "box");
  vp_eq("lower x bound", g.x_min, has(s) ? num(vp_key(b, "x_min")) : vp_real("x0"));
  vp_eq("upper x bound", g.x_max, has(s) ? num(vp_key(b, "x_max")) : vp_real("x1"));
  vp_eq("lower y bound", g.y_min, has(s) ? num(vp_key(b, "y_min")) : vp_real("y0"));
  vp_eq("upper y bound", g.y_max, has(s) ? num(vp_key(b, "y_max")) : vp_real("y1"));
  vp_eq("lower z bound", g.z_min, has(s) ? num(vp_key(b, "z_min")) : vp_real("z0"));
  vp_eq("upper z bound", g.z_max, has(s) ? num(vp_key(b, "z_max")) : vp_real("z1"));
  const int n[3] = {g.nx, g.ny, g.nz};
  for (int i = 0; i < 3; ++i)
    vp_eqi("cell count", n[i], has(s) ? vp_fnint("yaml_int", 1, vp_key(s, "cells"), i, 0, -2147483647, 2147483647) : i + 1);

  s = vp_key(doc, "time");
  vp_eq("start time", t.start, has(s) ? num(vp_key(s, "start")) : vp_real("t0"));
  vp_eq("end time", t.end, has(s) ? num(vp_key(s, "end")) : vp_real("t1"));
  vp_eq("time step", t.dt, has(s) ? num(vp_key(s, "dt")) : vp_real("dt"));
  text("fixed time step", t.constant_dt, vp_key(s, "constant_dt"), has(s), "old_cdt");

  s = vp_key(doc, "velocity");
  text("velocity name", v.name, vp_key(s, "name"), has(s), "old_vname");
  text("velocity gradient scheme", v.gradient_scheme, vp_key(vp_key(s, "gradient"), "scheme"), has(s), "old_vgrad");
  vp_eqi("velocity vector length", (long)v.vector.size(), has(s) ? len(vp_key(s, "vector")) : nv);
  vp_eqi("velocity centre length", (long)v.center.size(), has(s) ? len(vp_key(s, "center")) : nc);
  if ((long)v.vector.size() > 0) {
    vp_reach("velocity vector");
    const int i = vp_int("iv", 0, 1000000);
    vp_assume(i < (int)v.vector.size());
    vp_eq("velocity vector", v.vector[i], has(s) ? item(vp_key(s, "vector"), i) : vp_fn("oldv", 0, i, 0, 0));
  }
  if ((long)v.center.size() > 0) {
    vp_reach("velocity centre");
    const int i = vp_int("ic", 0, 1000000);
    vp_assume(i < (int)v.center.size());
    vp_eq("velocity centre", v.center[i], has(s) ? item(vp_key(s, "center"), i) : vp_fn("oldc", 0, i, 0, 0));
  }

  s = vp_key(doc, "levelset");
  text("level set name", l.name, vp_key(s, "name"), has(s), "old_lname");
  text("level set gradient scheme", l.gradient_scheme, vp_key(vp_key(s, "gradient"), "scheme"), has(s), "old_lgrad");
  const double lc[3] = {vp_real("lx"), vp_real("ly"), vp_real("lz")};
  for (int i = 0; i < 3; ++i) vp_eq("level set centre", l.center[i], has(s) ? item(vp_key(s, "center"), i) : lc[i]);
  vp_eq("level set radius", l.radius, has(s) ? num(vp_key(s, "radius")) : vp_real("lr"));
  vp_reach("end");
}
extern "C" void vpC19_document() { document<false>(); }
extern "C" void vpC19_again() { document<true>(); }
