// Native meaning of the C24 property: the real program on generated documents, with the real YAML library
// and real files below the scratch directory the check runs in.
#include <signal.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#define main vp_advection_main
#include "applications/advection/main.cc"
#undef main
extern "C" {
int vp_int(const char *name, int lo, int hi);
double vp_real(const char *name);
double vp_unit(const char *name);
double vp_fn(const char *fam, int m, int i, int j, int k);
void vp_check(const char *name, bool c);
void vp_eqi(const char *name, long got, long want);
void vp_same_text(const char *name, const std::ostringstream *got, const std::ostringstream *want);
void vp_read_file(std::ostringstream *into, const std::string *path);
void vp_expect_exit(const char *name);
void vp_no_exit(const char *name);
}
static std::string output;
static int made;
static bool quiet;
// nothing is done to a path the contract does not name
extern "C" int fsop(int o, const std::string *p)
{
  struct stat s;
  const bool there = stat(p->c_str(), &s) == 0;
  if (o == 0) return there;
  if (o > 4) return there && S_ISDIR(s.st_mode) == (o == 6);
  vp_check("only a directory is created", o == 2 || o == 4);
  vp_check("nothing is created when there is nothing to do", !quiet);
  vp_check("the directory of the document is created", *p == output + "/" || *p == output);
  ++made;
  return mkdir(output.c_str(), 0700) == 0;
}
static void late(int) { vp_check("the program ends", false); }
static std::string num(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
static std::string list(const double *v) { return "[" + num(v[0]) + ", " + num(v[1]) + ", " + num(v[2]) + "]"; }
static void run(bool rotates, bool fixed)
{
  static const char *V[] = {"NOT_DEFINED", "circular", "CIRCULA", "CIRCULARX", "VORTEX", "", "CIRCLE"}, *F[] = {"YES", "no", "NOT", "N", "fixed", ""},
                    *S[] = {"ANALYTICAL", "SECOND_ORDER_CENTRAL", "analytical", ""}, *L[] = {"CIRCLE", "SPHERE", "circle", ""};
  const std::string q = "\"";
  char d[64];
  snprintf(d, sizeof d, "v%d", (int)getpid());
  mkdir(d, 0700);
  const std::string base = d, input = base + "/" + (vp_int("input", 0, 1) ? "inputs" : "a b.yaml");
  output = base + "/" + (vp_int("output", 0, 1) ? "out" : "other dir");
  unlink((output + "/velocity").c_str()), rmdir(output.c_str());
  const int was = vp_int("was", 0, 2);
  if (was) mkdir(output.c_str(), 0700);
  if (was == 2) std::ofstream(output + "/velocity") << "what was there before\n";
  int n[3] = {vp_int("nx", 1, 9), vp_int("ny", 1, 9), 1};
  double lo[3], len[3], h[3], c[3], w[3], l[3];
  for (int s = 0; s < 3; ++s) {
    lo[s] = vp_fn("lo", 0, s, 0, 0), len[s] = 0.5 + 1.4 * vp_unit(s == 0 ? "xlen" : s == 1 ? "ylen" : "zlen"), h[s] = len[s] / n[s];
    c[s] = lo[s] + len[s] * vp_unit(s == 0 ? "cx" : s == 1 ? "cy" : "cz"), w[s] = vp_fn("vector", 0, s, 0, 0), l[s] = vp_fn("lcenter", 0, s, 0, 0);
  }
  double hmin = h[0] < h[1] ? h[0] : h[1];
  const double dt = fixed ? 0.4 * hmin * vp_unit("dt") : vp_real("dt");
  const double step = fixed ? dt : 0.5 * (hmin < h[2] ? hmin : h[2]);
  const std::string name = rotates ? "CIRCULAR" : V[vp_int("vname", 0, 6)];
  {
    std::ofstream o(input);
    o << "general:\n  output_directory: " << q << output << q << "\ngrid:\n  box:\n";
    const char *k[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    for (int i = 0; i < 6; ++i) o << "    " << k[i] << ": " << num(lo[i / 2] + (i % 2 ? len[i / 2] : 0)) << "\n";
    o << "  cells: [" << n[0] << ", " << n[1] << ", " << n[2] << "]\n";
    o << "time:\n  start: " << num(vp_real("start")) << "\n  end: " << num(step * vp_int("steps", -6, 5) + step * vp_unit("rest")) << "\n  dt: " << num(dt) << "\n  constant_dt: " << q << (fixed ? F[vp_int("fixed", 0, 5)] : "NO") << q << "\n";
    o << "velocity:\n  name: " << q << name << q << "\n  vector: " << list(w) << "\n  center: " << list(c) << "\n  gradient:\n    scheme: " << q << S[vp_int("vgrad", 0, 3)] << q << "\n";
    o << "levelset:\n  name: " << q << L[vp_int("lname", 0, 3)] << q << "\n  center: " << list(l) << "\n  radius: " << num(vp_real("radius")) << "\n  gradient:\n    scheme: " << q << S[vp_int("lgrad", 0, 3)] << q << "\n";
  }
  made = 0, quiet = false;
  signal(SIGVTALRM, late);
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = 10;
  setitimer(ITIMER_VIRTUAL, &t, 0);
  char a0[] = "advection";
  char *argv[3] = {a0, (char *)input.c_str(), 0};
  const int r = vp_advection_main(2, argv);
  t.it_value.tv_sec = 0;
  setitimer(ITIMER_VIRTUAL, &t, 0);
  vp_eqi("the program succeeds", r, 0);
  struct stat st;
  vp_check("the directory of the document is there", stat(output.c_str(), &st) == 0 && S_ISDIR(st.st_mode));
  std::ostringstream got, want;
  const std::string path = output + "/velocity";
  vp_read_file(&got, &path);
  const double om = 3.141592653589793 / 3.15;
  for (int i = 0; i < n[0]; ++i)
    for (int j = 0; j < n[1]; ++j) {
      const double x = lo[0] + (i + 0.5) * h[0], y = lo[1] + (j + 0.5) * h[1];
      want << x << "\t" << y << "\t" << 0. << "\t" << (rotates ? om * (c[1] - y) : 0.) << "\t" << (rotates ? om * (x - c[0]) : 0.) << "\t" << 0. << "\n";
    }
  vp_same_text("the velocity of the document is written", &got, &want);
}
extern "C" void vpC24_rotation() { run(true, false); }
extern "C" void vpC24_rotation_fixed_step() { run(true, true); }
extern "C" void vpC24_other() { run(false, false); }
extern "C" void vpC24_other_fixed_step() { run(false, true); }
static void nothing(int argc)
{
  quiet = true;
  char a0[] = "advection", a1[] = "no such document";
  char *argv[3] = {a0, argc > 1 ? a1 : 0, 0};
  vp_expect_exit("the program ends");
  vp_advection_main(argc, argv);
  vp_no_exit("the program ends");
}
extern "C" void vpC24_no_document() { nothing(1); }
extern "C" void vpC24_missing_document() { nothing(2); }
