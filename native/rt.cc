// Executable meaning of the specification intrinsics: the same harness that the
// verifier interprets symbolically is run against the natively compiled code of
// /repo on concrete inputs (replay of counterexamples, random search).
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include <vector>

struct Skip {};
struct Shared {
  unsigned long seed;
  unsigned long ran, skipped, checks;
  int failed;
  char msg[4096];
};
static Shared *sh;
static std::map<std::string, double> ov;
static std::map<std::string, double> drawn;
static std::vector<std::string> order;
static unsigned long seed;
static bool expecting = false, large = false;
static int mode;
static std::map<std::string, int> integers;
static jmp_buf out;  // where a required termination of the process ends up

static uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static uint64_t hs(const char *s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}
static uint64_t rnd(const char *name, uint64_t salt) { return mix(mix(seed * 1000003 + salt) ^ hs(name)); }
static double u01(uint64_t r) { return (r >> 11) * (1.0 / 9007199254740992.0); }

static bool lookup(const std::string &key, double &v)
{
  auto d = drawn.find(key);
  if (d != drawn.end()) { v = d->second; return true; }
  auto o = ov.find(key);
  if (o != ov.end()) { v = o->second; drawn[key] = v; order.push_back(key); return true; }
  return false;
}
static double keep(const std::string &key, double v)
{
  drawn[key] = v;
  order.push_back(key);
  return v;
}
static std::string fkey(const char *fam, int m, int i, int j, int k)
{
  char b[200];
  snprintf(b, sizeof b, "f:%s(%d,%d,%d,%d)", fam, m, i, j, k);
  return b;
}
static void fail(const std::string &what)
{
  std::ostringstream o;
  o << what << " | inputs:";
  size_t n = 0;
  for (auto &k : order) {
    if (++n > 60) { o << " ..."; break; }
    char b[64];
    snprintf(b, sizeof b, "%.17g", drawn[k]);
    o << " " << k << "=" << b;
  }
  sh->failed = 1;
  std::string text = o.str();
  for (auto &c : text)
    if ((unsigned char)c < 32) c = ' ';
  snprintf(sh->msg, sizeof sh->msg, "%s", text.c_str());
  _exit(7);
}

static double real_draw(uint64_t r, uint64_t r2)
{
  switch (r % 4) {
    case 0: return (double)((int)(r2 % 7) - 3);
    case 1: return ((int)(r2 % 17) - 8) / 4.0;
    default: return -2 + 4 * u01(r2);
  }
}

// numbers written in the sources: thresholds are drawn now and then, together with their neighbours
static std::vector<double> dict;
static void read_dict()
{
  const char *d = getenv("VP_DICT");
  std::istringstream in(d ? d : "");
  double v;
  while (in >> v) dict.push_back(v);
}

extern "C" {
void vp_large(int on) { large = on; }
void vp_integers(const char *fam, int mult) { integers[fam] = mult; }
int vp_int(const char *name, int lo, int hi)
{
  double v;
  std::string k = std::string("i:") + name;
  if (lookup(k, v)) return (int)v;
  if (lo > hi) throw Skip();
  uint64_t r = rnd(name, 11), r2 = rnd(name, 12);
  long span = (long)hi - lo;
  long x;
  if (large && span > 64) {
    double e = u01(r2) * std::log((double)span);
    x = r % 3 == 0 ? (long)(r2 % 6) : (long)std::exp(e);
    if (x > span) x = span;
    if (r % 17 == 0) x = span - (long)(r2 % 4);
  } else if (span > 40) {
    x = r % 5 == 0 ? (long)(r2 % 9) : (long)(r2 % 4);
  } else
    x = (long)(r2 % (uint64_t)(span + 1));
  if (!dict.empty() && rnd(name, 13) % 12 == 0) {
    const double d = dict[r2 % dict.size()];
    const long y = (long)d + (long)(r / 64 % 5) - 1;
    if (d == std::floor(d) && y >= lo && y <= hi && y <= (large ? hi : 70)) x = y - lo;
  }
  return (int)keep(k, (double)(lo + x));
}
double vp_real(const char *name)
{
  double v;
  std::string k = std::string("r:") + name;
  if (lookup(k, v)) return v;
  if (!dict.empty() && rnd(name, 23) % 12 == 0) {
    // the number itself only where arithmetic with it is exact; not the tiny ones (rounding)
    const double d = dict[rnd(name, 24) % dict.size()], c = (double)((int)(rnd(name, 25) % 3) - 1) / 8;
    if (d == 0 || (std::fabs(d) >= 1e-3 && std::fabs(d) < 1000))
      return keep(k, d * 8 == std::floor(d * 8) ? d + c : d * (1 + (c == 0 ? 0.25 : c)));
  }
  return keep(k, real_draw(rnd(name, 21), rnd(name, 22)));
}
double vp_pos(const char *name)
{
  double v;
  std::string k = std::string("r:") + name;
  if (lookup(k, v)) return v;
  uint64_t r = rnd(name, 31), r2 = rnd(name, 32);
  double t[] = {0.5, 1, 2, 4};
  return keep(k, r % 3 == 0 ? t[r2 % 4] : 0.3 + 3 * u01(r2));
}
double vp_unit(const char *name)
{
  double v;
  std::string k = std::string("r:") + name;
  if (lookup(k, v)) return v;
  uint64_t r = rnd(name, 41), r2 = rnd(name, 42);
  return keep(k, r % 5 == 0 ? (1 + r2 % 7) / 8.0 : 0.02 + 0.96 * u01(r2));
}
double vp_fn(const char *fam, int m, int i, int j, int kk)
{
  double v;
  std::string k = fkey(fam, m, i, j, kk);
  if (lookup(k, v)) return v;
  uint64_t r = rnd(k.c_str(), 51), r2 = rnd(k.c_str(), 52);
  if (integers.count(fam)) return keep(k, integers[fam] * ((int)(r % 5) - 2));
  if (mode >= 4) {
    // whole fields of a special shape: zero, constant, linear in the cell index
    const uint64_t q = rnd(fam, 53);
    const double c = (int)(q / 16 % 5) - 2;
    switch (mode == 4 ? q % 4 : mode == 5 ? q % 2 : q % 8) {
      case 0: return keep(k, 0);
      case 1: return keep(k, mode == 5 ? -1 + 2 * u01(r) : c);
      case 2: return keep(k, c + m + (int)(q / 256 % 3) * i - (int)(q / 1024 % 3) * j + ((int)(q / 4096 % 3) - 1) * kk);
      case 3: return keep(k, (int)(rnd(fam, 54 + m) % 5) - 2);
      default: return keep(k, real_draw(r, r2));
    }
  }
  switch (mode) {
    case 0: return keep(k, -1 + 2 * u01(r));
    case 1: return keep(k, (int)(r % 3) - 1);
    case 2: return keep(k, ((int)(r % 9) - 4) / 2.0);
    default: return keep(k, real_draw(r, r2));
  }
}
double vp_fnunit(const char *fam, int m, int i, int j, int kk)
{
  double v;
  std::string k = fkey(fam, m, i, j, kk);
  if (lookup(k, v)) return v;
  return keep(k, 0.02 + 0.96 * u01(rnd(k.c_str(), 61)));
}
int vp_fnint(const char *fam, int m, int i, int j, int kk, int lo, int hi)
{
  double v;
  std::string k = fkey(fam, m, i, j, kk);
  if (lookup(k, v)) return (int)v;
  if (lo > hi) throw Skip();
  return (int)keep(k, lo + (long)(rnd(k.c_str(), 71) % (uint64_t)((long)hi - lo + 1)));
}
void vp_assume(bool c)
{
  if (!c) throw Skip();
}
void vp_check(const char *name, bool c)
{
  ++sh->checks;
  if (!c) fail(std::string("failed: ") + name);
}
void vp_eq(const char *name, double got, double want)
{
  ++sh->checks;
  double tol = 1e-7 * (1 + std::fmax(std::fabs(got), std::fabs(want)));
  if (!(std::fabs(got - want) <= tol)) {
    char b[400];
    snprintf(b, sizeof b, "failed: %s: got %.17g, required %.17g", name, got, want);
    fail(b);
  }
}
void vp_eqi(const char *name, long got, long want)
{
  ++sh->checks;
  if (got != want) {
    char b[400];
    snprintf(b, sizeof b, "failed: %s: got %ld, required %ld", name, got, want);
    fail(b);
  }
}
void vp_text(std::string *out, const char *fam, int id)
{
  static const char *W[] = {"CIRCULAR", "CIRCLE", "ANALYTICAL", "SECOND_ORDER_CENTRAL", "THIRD_ORDER", "", "VORTEX", "NOT_DEFINED", "none"};
  const int word = vp_fnint((std::string(fam) + "_word").c_str(), 0, id, 0, 0, 0, 17);
  std::string w = W[word < 9 ? word : !strcmp(fam, "scheme") ? 2 : word % 2];
  const int n = (int)w.size(), at = n ? vp_fnint((std::string(fam) + "_at").c_str(), 0, id, 0, 0, 0, n - 1) : 0;
  switch (vp_fnint((std::string(fam) + "_edit").c_str(), 0, id, 0, 0, 0, 11)) {
    case 0: w = w.substr(0, at); break;
    case 1: w += "X"; break;
    case 2: if (n) w[at] = (char)std::tolower(w[at]); break;
    case 3: if (n) w.erase(at, 1); break;
    case 4: w = " " + w; break;
    case 5: if (n) w[n - 1] = '?'; break;
    case 6: for (char &c : w) c = (char)std::tolower(c); break;
    default: break;
  }
  *out = w;
}
// text output: numbers compare by value, everything else character by character
void vp_fmt(std::ostringstream *) {}
void vp_same_text(const char *name, const std::ostringstream *got, const std::ostringstream *want)
{
  ++sh->checks;
  const std::string a = got->str(), b = want->str();
  const double tol = want->precision() > 10 ? 1e-9 : 2e-5;
  const char *x = a.c_str(), *y = b.c_str();
  auto starts = [](const char *base, const char *q) {
    return (std::isdigit((unsigned char)*q) || ((*q == '-' || *q == '.') && std::isdigit((unsigned char)q[1]))) && (q == base || !std::isalnum((unsigned char)q[-1]));
  };
  while (*x || *y) {
    if (starts(a.c_str(), x) && starts(b.c_str(), y)) {
      char *ex, *ey;
      const double u = strtod(x, &ex), v = strtod(y, &ey);
      if (!(std::fabs(u - v) <= tol * (1e-3 + std::fmax(std::fabs(u), std::fabs(v))))) break;
      x = ex, y = ey;
    } else if (*x == *y)
      ++x, ++y;
    else
      break;
  }
  if (*x || *y) fail(std::string("failed: ") + name + ": the text differs at \"" + std::string(x).substr(0, 40) + "\", required \"" + std::string(y).substr(0, 40) + "\"");
}
void vp_read_file(std::ostringstream *into, const std::string *path)
{
  std::ifstream in(path->c_str());
  into->str("");
  std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  *into << all;
}
// a file below the scratch directory the check runs in; it may be there already, with other text
void vp_path(std::string *out, const char *name)
{
  static const char *W[] = {"velocity", "velocity.old", "phi", "a b", "sub.dir/psi", "x"};
  char d[64];
  snprintf(d, sizeof d, "w%d", (int)getpid());
  mkdir(d, 0700);
  mkdir((std::string(d) + "/sub.dir").c_str(), 0700);
  *out = std::string(d) + "/" + W[vp_int((std::string(name) + "_file").c_str(), 0, 5)];
  unlink(out->c_str());
  if (vp_int((std::string(name) + "_old").c_str(), 0, 1)) {
    std::ofstream o(out->c_str());
    for (int i = 0; i < 400; ++i) o << "what was there before " << i << "\n";
  }
}
void vp_reach(const char *) {}
void vp_expect_exit(const char *) { expecting = true; }
void vp_no_exit(const char *name) { fail(std::string("failed: ") + name + ": the process had to terminate and did not"); }
void vp_merge(int) {}
int vp_native() { return 1; }
void __real_exit(int);
void __wrap_exit(int c)
{
  if (expecting) longjmp(out, 1);
  fail("failed: the library terminates the process");
  __real_exit(c);
}
void __wrap_abort()
{
  if (expecting) longjmp(out, 1);
  fail("failed: the library aborts the process");
  _exit(7);
}
}

static void one(void (*f)(), unsigned long s)
{
  seed = s;
  mode = s % 8;
  drawn.clear();
  order.clear();
  integers.clear();
  expecting = large = false;
  sh->seed = s;
  if (setjmp(out)) {
    ++sh->ran;
    return;
  }
  try {
    f();
    ++sh->ran;
  } catch (Skip &) {
    ++sh->skipped;
  } catch (std::exception &e) {
    fail(std::string("failed: exception escapes: ") + e.what());
  }
}

int main(int argc, char **argv)
{
  // rt <harness> <first seed> <max runs> <seconds> [overrides]
  if (argc < 5) return 2;
  read_dict();
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  unsigned long s0 = strtoul(argv[2], 0, 10), n = strtoul(argv[3], 0, 10);
  double secs = atof(argv[4]);
  if (argc > 5) {
    FILE *fp = fopen(argv[5], "r");
    char line[1000];
    while (fp && fgets(line, sizeof line, fp)) {
      char *e = strrchr(line, '=');
      if (!e) continue;
      *e = 0;
      ov[line] = atof(e + 1);
    }
    if (fp) fclose(fp);
  }
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (unsigned long i = 0; i < n; ++i) {
      one(f, s0 + i);
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break;
    }
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (sh->failed) {
    printf("FAIL seed=%lu %s\n", sh->seed, sh->msg);
    return 1;
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    printf("FAIL seed=%lu failed: run-time error (%s %d), see stderr\n", sh->seed, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    return 1;
  }
  printf("OK ran=%lu skipped=%lu checks=%lu\n", sh->ran, sh->skipped, sh->checks);
  return 0;
}
