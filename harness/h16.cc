#include "vp.h"
#include "gals/utilities/utilities.h"
static double R(const char *f, int m) { return vp_fn(f, m, 0, 0, 0); }
static Vec3<double> V(const char *f) { return Vec3<double>(R(f, 0), R(f, 1), R(f, 2)); }
static Mat3<double> M(const char *f) { return Mat3<double>(R(f, 0), R(f, 1), R(f, 2), R(f, 3), R(f, 4), R(f, 5), R(f, 6), R(f, 7), R(f, 8)); }
extern "C" void vpC16_vec()
{
  Vec3<double> a = V("a"), b = V("b"), z;
  double s = vp_real("s");
  vp_eqi("size", a.size(), 3);
  for (int i = 0; i < 3; ++i) {
    vp_eq("component", a[i], R("a", i));
    vp_eq("default is zero", z[i], 0);
    vp_eq("difference", (a - b)[i], R("a", i) - R("b", i));
    vp_eq("componentwise product", (a * b)[i], R("a", i) * R("b", i));
    vp_eq("scaling", (a * s)[i], R("a", i) * s);
  }
  z = a;
  for (int i = 0; i < 3; ++i) vp_eq("assignment", z[i], R("a", i));
  int w = vp_int("w", 0, 2);
  z[w] = s;
  for (int i = 0; i < 3; ++i) vp_eq("component write", z[i], i == w ? s : R("a", i));
  for (int i = 0; i < 3; ++i) vp_eq("operands kept", a[i], R("a", i)), vp_eq("operands kept", b[i], R("b", i));
  double m = a.mag();
  vp_check("magnitude is not negative", m >= 0);
  vp_eq("magnitude squared is the sum of squares", m * m, R("a", 0) * R("a", 0) + R("a", 1) * R("a", 1) + R("a", 2) * R("a", 2));
  vp_reach("end");
}
extern "C" void vpC16_min()
{
  const Vec3<double> a = V("a");
  double m = a.min();
  vp_check("minimum bounds every component", m <= R("a", 0) && m <= R("a", 1) && m <= R("a", 2));
  vp_check("minimum is a component", m == R("a", 0) || m == R("a", 1) || m == R("a", 2));
  vp_reach("end");
}
extern "C" void vpC16_mini()
{
  int x = vp_int("x", -2147483647, 2147483647), y = vp_int("y", -2147483647, 2147483647), z = vp_int("z", -2147483647, 2147483647);
  const Vec3<int> a(x, y, z);
  int m = a.min();
  vp_check("minimum bounds every component", m <= x && m <= y && m <= z);
  vp_check("minimum is a component", m == x || m == y || m == z);
  const Vec3<int> b(y, z, x);
  vp_check("equality of integer vectors", (a == b) == (x == y && y == z && z == x));
  vp_reach("end");
}
extern "C" void vpC16_div()
{
  const Vec3<double> a = V("a");
  double p = vp_pos("p"), q = vp_pos("q"), r = vp_pos("r");
  const Vec3<double> b(p, -q, r);
  vp_eq("quotient", (a / b)[0] * p, R("a", 0));
  vp_eq("quotient", (a / b)[1] * q, -R("a", 1));
  vp_eq("quotient", (a / b)[2] * r, R("a", 2));
  vp_reach("end");
}
static bool near(double x, double y) { return x - y <= 1e-10 && y - x <= 1e-10; }
extern "C" void vpC16_veceq()
{
  const Vec3<double> a = V("a"), b = V("b");
  bool want = near(R("a", 0), R("b", 0)) && near(R("a", 1), R("b", 1)) && near(R("a", 2), R("b", 2));
  vp_check("equality within 1e-10 per component", (a == b) == want);
  vp_reach("end");
}
extern "C" void vpC16_mateq()
{
  const Mat3<double> a = M("a");
  int w = vp_int("w", 0, 8);
  double d = vp_real("d");
  Mat3<double> b(a);
  vp_check("equal to itself", a == b);
  b[w] = R("a", w) + d;
  vp_check("equality within 1e-10 per entry", (a == b) == near(d, 0));
  vp_reach("end");
}
// any two matrices: equal exactly when every entry is
extern "C" void vpC16_mateq_only()
{
  const Mat3<double> a = M("a"), b = M("b");
  if (a == b) {
    vp_reach("equal");
    for (int w = 0; w < 9; ++w) vp_check("equal matrices agree within 1e-10 in every entry", near(R("a", w), R("b", w)));
  }
  vp_reach("end");
}
extern "C" void vpC16_mateq_if()
{
  double d[9];
  for (int i = 0; i < 9; ++i) {
    d[i] = vp_fn("d", i, 0, 0, 0);
    if (vp_native()) d[i] *= 1e-12;
    vp_assume(near(d[i], 0));
  }
  const Mat3<double> a = M("a"), b(R("a", 0) + d[0], R("a", 1) + d[1], R("a", 2) + d[2], R("a", 3) + d[3], R("a", 4) + d[4], R("a", 5) + d[5],
                                   R("a", 6) + d[6], R("a", 7) + d[7], R("a", 8) + d[8]);
  vp_check("matrices that agree within 1e-10 in every entry are equal", a == b);
  vp_reach("end");
}
// operands that are the same object
extern "C" void vpC16_alias()
{
  Vec3<double> a = V("a");
  Mat3<double> m = M("m");
  for (int i = 0; i < 3; ++i) {
    vp_eq("difference with itself", (a - a)[i], 0);
    vp_eq("product with itself", (a * a)[i], R("a", i) * R("a", i));
  }
  for (int i = 0; i < 9; ++i) vp_eq("matrix difference with itself", (m - m)[i], 0);
  a = a;
  m = m;
  for (int i = 0; i < 3; ++i) vp_eq("self assignment", a[i], R("a", i));
  for (int i = 0; i < 9; ++i) vp_eq("matrix self assignment", m[i], R("m", i));
  a = a - a * a;
  for (int i = 0; i < 3; ++i) vp_eq("result assigned to an operand", a[i], R("a", i) - R("a", i) * R("a", i));
  a = V("a");
  a = m.dot(a);
  for (int j = 0; j < 3; ++j) vp_eq("product assigned to its operand", a[j], R("m", j) * R("a", 0) + R("m", 3 + j) * R("a", 1) + R("m", 6 + j) * R("a", 2));
  vp_reach("end");
}
extern "C" void vpC16_mat()
{
  Mat3<double> a = M("a"), b = M("b"), z;
  Vec3<double> v = V("v");
  double s = vp_real("s");
  vp_eqi("size", a.size(), 9);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      vp_eq("row major entry", a(i, j), R("a", 3 * i + j));
      vp_eq("flat entry", a[3 * i + j], R("a", 3 * i + j));
      vp_eq("default is zero", z(i, j), 0);
      vp_eq("difference", (a - b)(i, j), R("a", 3 * i + j) - R("b", 3 * i + j));
      vp_eq("scaling", (a * s)(i, j), R("a", 3 * i + j) * s);
    }
  for (int j = 0; j < 3; ++j)
    vp_eq("transposed product", a.dot(v)[j], R("a", j) * R("v", 0) + R("a", 3 + j) * R("v", 1) + R("a", 6 + j) * R("v", 2));
  z = a;
  for (int i = 0; i < 9; ++i) vp_eq("assignment", z[i], R("a", i));
  int wi = vp_int("wi", 0, 2), wj = vp_int("wj", 0, 2);
  z(wi, wj) = s;
  for (int i = 0; i < 9; ++i) vp_eq("entry write", z[i], i == 3 * wi + wj ? s : R("a", i));
  for (int i = 0; i < 9; ++i) vp_eq("operands kept", a[i], R("a", i)), vp_eq("operands kept", b[i], R("b", i));
  vp_reach("end");
}
// integer vectors and matrices, components small enough for int products
static int I(const char *f, int m) { return vp_fnint(f, m, 0, 0, 0, -15000, 15000); }
extern "C" void vpC16_veci()
{
  Vec3<int> a(I("a", 0), I("a", 1), I("a", 2)), b(I("b", 0), I("b", 1), I("b", 2)), z;
  const int s = vp_int("s", -15000, 15000), w = vp_int("w", 0, 2);
  vp_eqi("size", a.size(), 3);
  const Vec3<int> dif = a - b, pro = a * b, sca = a * s;
  for (int i = 0; i < 3; ++i) {
    vp_eqi("component", a[i], I("a", i));
    vp_eqi("default is zero", z[i], 0);
    vp_eqi("difference", dif[i], I("a", i) - I("b", i));
    vp_eqi("componentwise product", pro[i], I("a", i) * I("b", i));
    vp_eqi("scaling", sca[i], I("a", i) * s);
  }
  z = a;
  z[w] = s;
  const Vec3<int> &cz = z;
  for (int i = 0; i < 3; ++i) vp_eqi("component write", cz[i], i == w ? s : I("a", i));
  const double m = a.mag();
  vp_check("magnitude is not negative", m >= 0);
  vp_eq("magnitude squared is the sum of squares", m * m, (double)I("a", 0) * I("a", 0) + (double)I("a", 1) * I("a", 1) + (double)I("a", 2) * I("a", 2));
  for (int i = 0; i < 3; ++i) vp_eqi("operands kept", a[i], I("a", i)), vp_eqi("operands kept", b[i], I("b", i));
  vp_reach("end");
}
extern "C" void vpC16_divi()
{
  const Vec3<int> a(I("a", 0), I("a", 1), I("a", 2));
  const int p = vp_int("p", 1, 15000), q = vp_int("q", -15000, -1), r = vp_int("r", 1, 15000);
  const Vec3<int> c = a / Vec3<int>(p, q, r);
  vp_eqi("integer quotient", c[0], I("a", 0) / p);
  vp_eqi("integer quotient", c[1], I("a", 1) / q);
  vp_eqi("integer quotient", c[2], I("a", 2) / r);
  vp_reach("end");
}
extern "C" void vpC16_fromvectori()
{
  std::vector<int> s(3);
  s[0] = I("a", 0), s[1] = I("a", 1), s[2] = I("a", 2);
  const Vec3<int> v(s);
  for (int i = 0; i < 3; ++i) vp_eqi("vector of three values", v[i], I("a", i));
  vp_reach("end");
}
static Mat3<int> MI(const char *f) { return Mat3<int>(I(f, 0), I(f, 1), I(f, 2), I(f, 3), I(f, 4), I(f, 5), I(f, 6), I(f, 7), I(f, 8)); }
extern "C" void vpC16_mati()
{
  Mat3<int> a = MI("a"), b = MI("b"), z;
  const Vec3<int> v(I("v", 0), I("v", 1), I("v", 2));
  const int s = vp_int("s", -15000, 15000), wi = vp_int("wi", 0, 2), wj = vp_int("wj", 0, 2);
  vp_eqi("size", a.size(), 9);
  const Mat3<int> dif = a - b, sca = a * s;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      vp_eqi("row major entry", a(i, j), I("a", 3 * i + j));
      vp_eqi("flat entry", a[3 * i + j], I("a", 3 * i + j));
      vp_eqi("default is zero", z(i, j), 0);
      vp_eqi("difference", dif(i, j), I("a", 3 * i + j) - I("b", 3 * i + j));
      vp_eqi("scaling", sca(i, j), I("a", 3 * i + j) * s);
    }
  const Vec3<int> t = a.dot(v);
  for (int j = 0; j < 3; ++j) vp_eqi("transposed product", t[j], I("a", j) * I("v", 0) + I("a", 3 + j) * I("v", 1) + I("a", 6 + j) * I("v", 2));
  z = a;
  z(wi, wj) = s;
  const Mat3<int> &cz = z;
  for (int i = 0; i < 9; ++i) vp_eqi("entry write", cz[i], i == 3 * wi + wj ? s : I("a", i));
  vp_reach("end");
}
extern "C" void vpC16_mateqi()
{
  const Mat3<int> a = MI("a");
  Mat3<int> b(a);
  const int w = vp_int("w", 0, 8), s = vp_int("s", -15000, 15000);
  vp_check("equal to its copy", a == b);
  b[w] = s;
  vp_check("equality of integer matrices", (a == b) == (s == I("a", w)));
  vp_reach("end");
}
template <int N>
static void vecni()
{
  VecN<int, N> a;
  vp_eqi("size", a.size(), N);
  for (int i = 0; i < N; ++i) vp_eqi("default is zero", a[i], 0);
  for (int i = 0; i < N; ++i) a[i] = I("a", i);
  VecN<int, N> b(a), c;
  c = a;
  const int w = vp_int("w", 0, N - 1), s = vp_int("s", -15000, 15000);
  a[w] = s;
  const VecN<int, N> &ca = a;
  for (int i = 0; i < N; ++i) {
    vp_eqi("entry", ca[i], i == w ? s : I("a", i));
    vp_eqi("copy is independent", b[i], I("a", i));
    vp_eqi("assigned copy is independent", c[i], I("a", i));
  }
  vp_reach("end");
}
extern "C" void vpC16_vecni1() { vecni<1>(); }
extern "C" void vpC16_vecni2() { vecni<2>(); }
extern "C" void vpC16_vecni3() { vecni<3>(); }
template <int N>
static void vecn()
{
  VecN<double, N> a;
  vp_eqi("size", a.size(), N);
  for (int i = 0; i < N; ++i) vp_eq("default is zero", a[i], 0);
  if (N == 0) return;
  for (int i = 0; i < N; ++i) a[i] = R("a", i);
  VecN<double, N> b(a), c;
  c = a;
  int w = vp_int("w", 0, N - 1);
  a[w] = vp_real("s");
  const VecN<double, N> &ca = a;
  for (int i = 0; i < N; ++i) {
    vp_eq("entry", ca[i], i == w ? vp_real("s") : R("a", i));
    vp_eq("copy is independent", b[i], R("a", i));
    vp_eq("assigned copy is independent", c[i], R("a", i));
  }
  vp_reach("end");
}
extern "C" void vpC16_vecn0() { vecn<0>(); vp_reach("end"); }
extern "C" void vpC16_vecn1() { vecn<1>(); }
extern "C" void vpC16_vecn2() { vecn<2>(); }
extern "C" void vpC16_vecn3() { vecn<3>(); }
extern "C" void vpC16_vecn4() { vecn<4>(); }
extern "C" void vpC16_fromvector()
{
  std::vector<double> s(3);
  s[0] = R("a", 0), s[1] = R("a", 1), s[2] = R("a", 2);
  const Vec3<double> v(s);
  for (int i = 0; i < 3; ++i) vp_eq("vector of three values", v[i], R("a", i));
  vp_reach("end");
}
extern "C" void vpC16_scalar()
{
  double a = vp_real("a"), b = vp_real("b");
  vp_check("tolerant equality", GALS::is_equal(a, b) == near(a, b));
  vp_eq("square", GALS::sqr(a), a * a);
  vp_eq("cube", GALS::cube(a), a * a * a);
  vp_eq("one third", 3 * GALS::one_third, 1);
  vp_eq("two thirds", 3 * GALS::two_thirds, 2);
  vp_reach("end");
}
