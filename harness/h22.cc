// text output of vectors, matrices and fields, and the files they are written to
#include <sstream>
#include "gals/utilities/file-utils.h"
#include "mkgrid.h"
extern "C" {
void vp_fmt(std::ostringstream *s);                                                                  // native replay: enough digits to compare
void vp_same_text(const char *name, const std::ostringstream *got, const std::ostringstream *want);  // the same text; numbers by their value
void vp_read_file(std::ostringstream *into, const std::string *path);                                // what the file holds now
void vp_path(std::string *out, const char *name);                                                    // any file name
int fsop(int, const std::string *) { return 0; }
}
static double R(const char *f, int m) { return vp_fn(f, m, 0, 0, 0); }
extern "C" void vpC22_small()
{
  Vec3<double> v(R("v", 0), R("v", 1), R("v", 2));
  Mat3<double> m(R("m", 0), R("m", 1), R("m", 2), R("m", 3), R("m", 4), R("m", 5), R("m", 6), R("m", 7), R("m", 8));
  VecN<double, 4> n;
  for (int i = 0; i < 4; ++i) n[i] = R("n", i);
  const Vec3<int> w(vp_int("a", -1000, 1000), vp_int("b", -1000, 1000), vp_int("c", -1000, 1000));
  std::ostringstream got, want;
  vp_fmt(&got), vp_fmt(&want);
  std::ostream &r = got << v << "|" << m << "|" << n << "|" << w;
  vp_check("the stream is returned", &r == &got);
  want << R("v", 0) << "\t" << R("v", 1) << "\t" << R("v", 2) << "|";
  for (int i = 0; i < 9; ++i) want << R("m", i) << "\t";
  want << "|";
  for (int i = 0; i < 4; ++i) want << R("n", i) << "\t";
  want << "|" << vp_int("a", -1000, 1000) << "\t" << vp_int("b", -1000, 1000) << "\t" << vp_int("c", -1000, 1000);
  vp_same_text("vectors and matrices are written entry by entry", &got, &want);
  for (int i = 0; i < 3; ++i) vp_eq("written vector is kept", v[i], R("v", i));
  for (int i = 0; i < 9; ++i) vp_eq("written matrix is kept", m[i], R("m", i));
  vp_reach("end");
}
static int vals(const double &) { return 1; }
static int vals(const Vec3<double> &) { return 3; }
static int vals(const Mat3<double> &) { return 9; }
template <int N>
static int vals(const VecN<double, N> &)
{
  return N;
}
static double val(const double &v, int) { return v; }
template <typename T>
static double val(const T &v, int s)
{
  return v[s];
}
static void put(double &v, int, double w) { v = w; }
template <typename T>
static void put(T &v, int s, double w)
{
  v[s] = w;
}
// how the value of a cell reads
static void value(std::ostream &o, const double *, int i, int j, int k, const char *fam) { o << vp_fn(fam, 0, i, j, k); }
static void value(std::ostream &o, const Vec3<double> *, int i, int j, int k, const char *fam)
{
  o << vp_fn(fam, 0, i, j, k) << "\t" << vp_fn(fam, 1, i, j, k) << "\t" << vp_fn(fam, 2, i, j, k);
}
static void value(std::ostream &o, const Mat3<double> *, int i, int j, int k, const char *fam)
{
  for (int s = 0; s < 9; ++s) o << vp_fn(fam, s, i, j, k) << "\t";
}
template <int N>
static void value(std::ostream &o, const VecN<double, N> *, int i, int j, int k, const char *fam)
{
  for (int s = 0; s < N; ++s) o << vp_fn(fam, s, i, j, k) << "\t";
}
// one line per interior cell, x slowest, z fastest: centre, tab, value
template <int DIM, typename T>
static void lines(std::ostream &o, const Ext<DIM> &e, const Box &b, const char *fam)
{
  for (int i = 0; i < e.n[0]; ++i)
    for (int j = 0; j < e.n[1]; ++j)
      for (int k = 0; k < e.n[2]; ++k) {
        o << b.lo[0] + (i + 0.5) * (b.len[0] / e.n[0]) << "\t";
        if (DIM > 1)
          o << b.lo[1] + (j + 0.5) * (b.len[1] / e.n[1]) << "\t";
        else
          o << 0. << "\t";
        if (DIM > 2)
          o << b.lo[2] + (k + 0.5) * (b.len[2] / e.n[2]) << "\t";
        else
          o << 0. << "\t";
        value(o, (const T *)0, i, j, k, fam);
        o << "\n";
      }
}
template <int DIM, typename T>
struct Field {
  Ext<DIM> e;
  Box b;
  Grid<double, DIM> g;
  Field() : e(vp_ext<DIM>(0)), b(vp_box()), g(vp_grid<DIM>(e)) { vp_generate<DIM>(g, e, b); }
  void fill(Array<Grid<double, DIM>, T> &a, const char *fam)
  {
    vp_fill<DIM>(e, [&](int i, int j, int k) {
      T &v = a(i, j, k);
      for (int s = 0; s < vals(v); ++s) put(v, s, vp_fn(fam, s, i, j, k));
    });
  }
};
template <int DIM, typename T>
static void output()
{
  Field<DIM, T> f;
  Array<Grid<double, DIM>, T> a(f.g);
  f.fill(a, "v");
  std::ostringstream got, want;
  vp_fmt(&got), vp_fmt(&want);
  std::ostream &r = got << a;
  vp_check("the stream is returned", &r == &got);
  lines<DIM, T>(want, f.e, f.b, "v");
  vp_same_text("one line per interior cell", &got, &want);
  const Cell z = vp_cell<DIM>(f.e, "zi", "zj", "zk", true);
  const T &v = a(z.c[0], z.c[1], z.c[2]);
  for (int s = 0; s < vals(v); ++s) vp_eq("the written field is kept", val(v, s), vp_fn("v", s, z.c[0], z.c[1], z.c[2]));
  vp_reach("end");
}
extern "C" void vpC22_output_1s() { output<1, double>(); }
extern "C" void vpC22_output_2s() { output<2, double>(); }
extern "C" void vpC22_output_3s() { output<3, double>(); }
extern "C" void vpC22_output_1v() { output<1, Vec3<double>>(); }
extern "C" void vpC22_output_2v() { output<2, Vec3<double>>(); }
extern "C" void vpC22_output_3v() { output<3, Vec3<double>>(); }
extern "C" void vpC22_output_2m() { output<2, Mat3<double>>(); }
extern "C" void vpC22_output_3m() { output<3, Mat3<double>>(); }
extern "C" void vpC22_output_3n4() { output<3, VecN<double, 4>>(); }
// two fields written to two files, the first file then written again
template <int DIM, typename T>
static void files()
{
  Field<DIM, T> f;
  Array<Grid<double, DIM>, T> a(f.g), c(f.g);
  f.fill(a, "a");
  f.fill(c, "c");
  std::string p, q;
  vp_path(&p, "first");
  vp_path(&q, "second");
  vp_assume(p != q);
  GALS::UTILITIES::FileUtils u;
  u.write(p, a);
  u.write(q, c);
  {
    std::ostringstream gp, gq, wp, wq;
    vp_read_file(&gp, &p), vp_read_file(&gq, &q);
    lines<DIM, T>(wp, f.e, f.b, "a");
    lines<DIM, T>(wq, f.e, f.b, "c");
    vp_same_text("the file holds the field", &gp, &wp);
    vp_same_text("the other file holds the other field", &gq, &wq);
  }
  u.write(p, c);
  std::ostringstream g, w;
  vp_read_file(&g, &p);
  lines<DIM, T>(w, f.e, f.b, "c");
  vp_same_text("writing again replaces the file", &g, &w);
  vp_reach("end");
}
extern "C" void vpC22_files_1s() { files<1, double>(); }
extern "C" void vpC22_files_1v() { files<1, Vec3<double>>(); }
extern "C" void vpC22_files_2s() { files<2, double>(); }
extern "C" void vpC22_files_2v() { files<2, Vec3<double>>(); }
extern "C" void vpC22_files_3v() { files<3, Vec3<double>>(); }
