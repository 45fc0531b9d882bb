// Steps of Sdirkl with the five methods. usage: sdirkl OUT tab | sdirkl OUT SEED COUNT [FROM]
#include "probe.hpp"
#include <iostream>
#include "Sdirkl.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKRS.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
using namespace odes;
static const int MX = 48;
struct Mat { int n = 0; double a[MX][MX]; };
static Mat *g_mat = 0;             // of the object which is built next
static long g_inits = 0, g_initn = 0, g_applies = 0, g_alias = 0;
static double g_gamma = 0;
struct Op {
  Mat *M = 0; int n = 0; double g = 0;
  void init(int n_, double g_) { n = n_; g = g_; M = g_mat; g_inits++; g_initn = n_; g_gamma = g_; }
  // (I - g A) out = in
  void apply(double *in, double *out) {
    g_applies++;
    if (in == out) g_alias++;
    std::vector<std::vector<long double>> m(n, std::vector<long double>(n + 1));
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) m[i][j] = (i == j) - (long double)g * M->a[i][j];
      m[i][n] = in[i];
    }
    for (int k = 0; k < n; k++) {
      int p = k;
      for (int i = k + 1; i < n; i++) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i;
      std::swap(m[p], m[k]);
      for (int i = k + 1; i < n; i++) if (m[i][k] != 0) {
        long double f = m[i][k] / m[k][k];
        for (int j = k; j <= n; j++) m[i][j] -= f * m[k][j];
      }
    }
    for (int i = n - 1; i >= 0; i--) {
      long double s = m[i][n];
      for (int j = i + 1; j < n; j++) s -= m[i][j] * m[j][n];
      m[i][n] = s / m[i][i];
    }
    for (int i = 0; i < n; i++) out[i] = (double)m[i][n];
  }
};
// the five methods behind one interface
struct Any {
  virtual ~Any() {}
  virtual int step(double *) = 0;
  virtual int step(double *, double *) = 0;
};
template <class M> struct One : Any {
  Sdirkl<M, Op> S;
  One(int n, double dt, bool aff) : S(n, dt, aff) {}
  int step(double *y) override { try { S.step(y); } catch (...) { return 1; } return 0; }
  int step(double *y, double *p) override { try { S.step(y, p); } catch (...) { return 1; } return 0; }
};
static Any *make(int m, int n, double dt, bool aff) {
  switch (m) {
  case 0: return new One<EulerImp>(n, dt, aff);
  case 1: return new One<CrN>(n, dt, aff);
  case 2: return new One<RKRS>(n, dt, aff);
  case 3: return new One<RKMethod1>(n, dt, aff);
  }
  return new One<RKMethod2>(n, dt, aff);
}
static const char *NAMES[5] = {"EulerImp", "CrN", "RKRS", "RKMethod1", "RKMethod2"};
static Mat T;
static void clear(int n) { T.n = n; for (int i = 0; i < MX; i++) for (int j = 0; j < MX; j++) T.a[i][j] = 0; g_mat = &T; }
static void tables() {
  std::vector<double> y(MX), b(MX), z(MX), w(MX);
  for (int m = 0; m < 5; m++) {
    double dt = rnd(0.01, 3);
    jbegin("method"); js("m", NAMES[m]);
    // polynomials: the operator moves the unknowns
    int n = 10;
    clear(n);
    for (int i = 1; i < n; i++) T.a[i][i - 1] = 1 / dt;
    for (int i = 0; i < n; i++) y[i] = i == 0;
    Any *s = make(m, n, dt, false); g_applies = 0; int e = s->step(y.data()); delete s;
    jvec("p", y.data(), n); ji("applies", g_applies);
    for (int i = 0; i < n; i++) { y[i] = 0; b[i] = (i == 0) / dt; }
    s = make(m, n, dt, true); e += s->step(y.data(), b.data()); delete s;
    jvec("q", y.data(), n);
    // real values
    n = 40; clear(n);
    for (int i = 0; i < n; i++) { z[i] = i < 30 ? -std::pow(10., -3 + i * 0.4) : 0.01 * (i - 29); T.a[i][i] = z[i] / dt; }
    for (int i = 0; i < n; i++) y[i] = 1;
    s = make(m, n, dt, false); e += s->step(y.data()); delete s;
    jvec("z", z.data(), n); jvec("R", y.data(), n);
    for (int i = 0; i < n; i++) { y[i] = 0; b[i] = 1 / dt; }
    s = make(m, n, dt, true); e += s->step(y.data(), b.data()); delete s;
    jvec("Q", y.data(), n);
    // a stationary point
    for (int i = 0; i < n; i++) { y[i] = w[i] = rnd(0.5, 2); b[i] = -w[i] * T.a[i][i]; }
    s = make(m, n, dt, true); e += s->step(y.data(), b.data()); delete s;
    jvec("s0", w.data(), n); jvec("s1", y.data(), n);
    // complex values x + iy, from rotations
    n = 40; clear(n);
    std::vector<double> zr(20), zi(20), cr(20), ci(20);
    for (int i = 0; i < 20; i++) {
      zr[i] = i < 10 ? 0 : -std::pow(10., rnd(-2, 1)); zi[i] = std::pow(10., rnd(-2, 2));
      T.a[2 * i][2 * i] = T.a[2 * i + 1][2 * i + 1] = zr[i] / dt;
      T.a[2 * i][2 * i + 1] = -zi[i] / dt; T.a[2 * i + 1][2 * i] = zi[i] / dt;
    }
    for (int i = 0; i < n; i++) y[i] = i % 2 == 0;
    s = make(m, n, dt, false); e += s->step(y.data()); delete s;
    for (int i = 0; i < 20; i++) { cr[i] = y[2 * i]; ci[i] = y[2 * i + 1]; }
    jvec("zr", zr.data(), 20); jvec("zi", zi.data(), 20); jvec("cr", cr.data(), 20); jvec("ci", ci.data(), 20);
    ji("exc", e);
    jend();
  }
}
// ---- histories -------------------------------------------------------------------
struct Obj { Any *s; int m, n; double dt; bool aff; Mat M; std::vector<double> lam, v; };
static void newobj(Obj &o, int k) {
  o.m = rndi(0, 4); o.n = rndi(1, 9); o.dt = std::pow(10., rnd(-2, 1)); o.aff = rnd64() % 2;
  if (rnd64() % 12 == 0) o.n = rndi(20, 40);
  o.lam.resize(o.n); o.v.resize(o.n);
  double q = 0;
  for (int i = 0; i < o.n; i++) { o.lam[i] = -std::pow(10., rnd(-2, 2)) / o.dt; o.v[i] = rnd(-1, 1); q += o.v[i] * o.v[i]; }
  if (rnd64() % 4 == 0) o.lam[0] = 0;
  q = std::sqrt(q);
  for (int i = 0; i < o.n; i++) o.v[i] /= q;
  o.M.n = o.n;
  for (int i = 0; i < o.n; i++) for (int j = 0; j < o.n; j++) {
    long double s = 0;
    for (int l = 0; l < o.n; l++) s += ((i == l) - 2.0L * o.v[i] * o.v[l]) * o.lam[l] * ((j == l) - 2.0L * o.v[j] * o.v[l]);
    o.M.a[i][j] = (double)s;
  }
  g_mat = &o.M; g_inits = 0;
  o.s = make(o.m, o.n, o.dt, o.aff);
  jbegin("make"); ji("obj", k); js("m", NAMES[o.m]); ji("n", o.n); jd("dt", o.dt); jb("affine", o.aff);
  ji("inits", g_inits); ji("initn", g_initn); jd("gamma", g_gamma); jvec("lam", o.lam.data(), o.n); jvec("v", o.v.data(), o.n); jend();
}
static void scenario(int k) {
  jbegin("trace"); ji("k", k); jend();
  int no = rndi(1, 3);
  std::vector<Obj *> ob;
  for (int i = 0; i < no; i++) { ob.push_back(new Obj); newobj(*ob[i], i + 1); }
  std::vector<std::vector<double>> y(no);
  for (int i = 0; i < no; i++) { y[i].resize(ob[i]->n); for (double &x : y[i]) x = rnd(-2, 2); }
  for (int st = 0; st < 14; st++) {
    int i = rndi(0, no - 1); Obj &o = *ob[i];
    if (rnd64() % 10 == 0) { // another one instead
      delete o.s; newobj(o, i + 1); y[i].resize(o.n); for (double &x : y[i]) x = rnd(-2, 2);
    }
    bool wrong = rnd64() % 5 == 0, aff = o.aff != wrong;
    if (rnd64() % 6 == 0) for (double &x : y[i]) x = rnd(-2, 2);
    // vectors of exactly the right size
    double *u = new double[o.n], *p = new double[o.n], *f = new double[o.n];
    std::vector<double> p0(o.n);
    if (rnd64() % 8 == 0) y[i][rndi(0, o.n - 1)] = 0;
    if (rnd64() % 20 == 0) for (double &x : y[i]) x = 0;
    bool nop = rnd64() % 10 == 0;
    for (int j = 0; j < o.n; j++) { u[j] = f[j] = y[i][j]; p[j] = p0[j] = nop || rnd64() % 9 == 0 ? 0 : rnd(-1, 1); }
    g_inits = g_applies = g_alias = 0;
    int e = aff ? o.s->step(u, p) : o.s->step(u);
    long ap = g_applies, in = g_inits;
    jbegin("step"); ji("obj", i + 1); jb("affine", aff); ji("exc", e); jvec("y", y[i].data(), o.n); jvec("r", u, o.n);
    jvec("phi", p0.data(), o.n); jvec("phi2", p, o.n); ji("applies", ap); ji("inits", in); ji("alias", g_alias);
    int e2 = 0;
    if (!wrong) {
      g_mat = &o.M;
      Any *s = make(o.m, o.n, o.dt, o.aff);
      e2 = aff ? s->step(f, p) : s->step(f);
      delete s;
    }
    ji("fexc", e2); jvec("fresh", f, o.n); jend();
    for (int j = 0; j < o.n; j++) y[i][j] = u[j];
    delete[] u; delete[] p; delete[] f;
  }
  for (int i = 0; i < no; i++) { delete ob[i]->s; delete ob[i]; }
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  if (!freopen("/dev/null", "w", stderr)) {}
  if (std::string(argv[2]) == "tab") { tables(); fclose(OUT); return 0; }
  long seed = atol(argv[2]);
  int count = atoi(argv[3]), from = argc > 4 ? atoi(argv[4]) : 0;
  for (int k = from; k < from + count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 377;
    scenario(k);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
