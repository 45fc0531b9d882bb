// Executions of Rock4L (linear and affine problems).
// usage: rock4l OUT tab | rock4l OUT SEED COUNT [FROM]
#include "probe.hpp"
#include "AllocateDestroyVector.hpp"
#ifndef ASSUME
#define ASSUME(l)
#endif
#include "Rock4L.hpp"
#include <map>
using namespace odes;

static const int MX = 160;
static int g_n = 4;
static double g_A[MX][MX];
static bool g_dense = true;      // otherwise g_A[i][i] only, and g_shift: A e_i = e_(i+1)
static bool g_shift = false;
static double g_rho = 1;
static std::map<const double *, int> g_ids;
static int id_of(const double *p) {
  if (!p) return -1;
  std::map<const double *, int>::iterator i = g_ids.find(p);
  if (i != g_ids.end()) return i->second;
  int k = g_ids.size(); g_ids[p] = k; return k;
}
static void amul(const double *x, double *r) {
  for (int i = 0; i < g_n; i++) {
    if (g_shift) r[i] = i > 0 ? x[i - 1] : 0;
    else if (!g_dense) r[i] = g_A[i][i] * x[i];
    else { double s = 0; for (int j = 0; j < g_n; j++) if (g_A[i][j] != 0) s += g_A[i][j] * x[j]; r[i] = s; }
  }
}
static long g_alias = 0, g_rhos = 0;
struct Fonc {
  int size() const { return g_n; }
  double rho() { g_rhos++; return g_rho; }
  // out = a (A in + g) + b in + c s
  void all(double *in, double *s, double a, double b, double c, double *g, double *out) {
    long k = g_calls++;
    if (g_budget > 0 && k >= g_budget) throw Stop();
    if (out == in || (out == s && c != 0) || out == g) g_alias++;
    std::vector<double> r(g_n);
    amul(in, r.data());
    std::vector<double> v(in, in + g_n);
    for (int i = 0; i < g_n; i++) r[i] = a * (r[i] + (g ? g[i] : 0)) + b * in[i] + c * s[i];
    if (g_log) { jbegin("F"); ji("in", id_of(in)); jvec("y", in, g_n); jend(); }
    for (int i = 0; i < g_n; i++) out[i] = r[i];
  }
  void operator()(double *in, double *s, double a, double b, double *out) { all(in, s, a, 0, b, 0, out); }
  void operator()(double *in, double *s, double a, double b, double *g, double *out) { all(in, s, a, 0, b, g, out); }
  void operator()(double *in, double *s, double a, double b, double c, double *out) { all(in, s, a, b, c, 0, out); }
  void operator()(double *in, double *s, double a, double b, double c, double *g, double *out) { all(in, s, a, b, c, g, out); }
};
typedef Rock4L<Fonc, false> Lin;
typedef Rock4L<Fonc, true> Aff;
static int exc_of_lin(Lin &S, double *y, double t0, double te, double h) {
  int e = 0; try { S(y, t0, te, h); } catch (OdesException &) { e = 1; } catch (Stop &) { e = 2; } return e;
}
static int exc_of_aff(Aff &S, double *y, double *b, double t0, double te, double h) {
  int e = 0; try { S(y, b, t0, te, h); } catch (OdesException &) { e = 1; } catch (Stop &) { e = 2; } return e;
}
static const int DEG[50] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 41,
                           44, 47, 50, 53, 56, 59, 63, 67, 71, 76, 81, 86, 92, 98, 105, 112, 120, 129, 138, 148};
static double rho_for(int d, double h) {
  double s = d + 3.5;
  double r = (s * s * 0.353 - 3) / h;
  return r < 0 ? 0 : r;
}
// one step of length h by a new solver
static int one(bool affine, int d, double h, double *y, double *b) {
  g_rho = rho_for(d, h); g_calls = 0; g_budget = 2000; g_log = false;
  Fonc F;
  int e;
  if (affine) { Aff S(F); e = exc_of_aff(S, y, b, 0, h, h); }
  else { Lin S(F); e = exc_of_lin(S, y, 0, h, h); }
  g_log = true;
  return e;
}
static void tables() {
  std::vector<double> y(MX), b(MX), z(MX), w(MX), q(MX);
  for (int t = 0; t < 50; t++) {
    int d = DEG[t], m = d + 4;
    double len = 0.353 * m * m - 3;
    jbegin("table"); ji("d", d);
    // coefficients of the polynomial: A moves the unknowns, h = 1
    g_n = m + 4; g_shift = true;
    for (int i = 0; i < g_n; i++) y[i] = i == 0;
    long e = one(false, d, 1, y.data(), 0); long calls = g_calls;
    jvec("p", y.data(), g_n);
    for (int i = 0; i < g_n; i++) { y[i] = 0; b[i] = i == 0; }
    e += one(true, d, 1, y.data(), b.data());
    jvec("q", y.data(), g_n);
    for (int i = 0; i < g_n; i++) { y[i] = i == 0; b[i] = 0; }
    e += one(true, d, 1, y.data(), b.data());
    jvec("p0", y.data(), g_n);
    g_shift = false; g_dense = false;
    // values, with another step
    double h = rnd(0.01, 3);
    g_n = 64;
    for (int i = 0; i < g_n; i++) {
      z[i] = i < 24 ? -0.2 * (i + 1) : -0.9999 * len * (i - 23) / 40.;
      if (-z[i] > 0.9999 * len) z[i] = -0.9999 * len;
      g_A[i][i] = z[i] / h;
    }
    for (int i = 0; i < g_n; i++) y[i] = 1;
    e += one(false, d, h, y.data(), 0);
    jvec("z", z.data(), g_n); jvec("R", y.data(), g_n);
    // affine: from zero, from something, from a stationary point
    for (int i = 0; i < g_n; i++) { y[i] = 0; b[i] = 1 / h; }
    e += one(true, d, h, y.data(), b.data());
    jvec("Q", y.data(), g_n);
    for (int i = 0; i < g_n; i++) { y[i] = w[i] = rnd(-2, 2); b[i] = rnd(-2, 2) / h; q[i] = b[i] * h; }
    jvec("y0", w.data(), g_n); jvec("hb", q.data(), g_n);
    e += one(true, d, h, y.data(), b.data());
    jvec("y1", y.data(), g_n);
    for (int i = 0; i < g_n; i++) { y[i] = w[i] = rnd(0.5, 2); b[i] = -w[i] * g_A[i][i]; }
    e += one(true, d, h, y.data(), b.data());
    jvec("s0", w.data(), g_n); jvec("s1", y.data(), g_n);
    g_dense = true;
    // a full matrix: eigenvectors (1,1) and (1,-1)
    double l1 = -rnd(0, 0.9) * len / h, l2 = -rnd(0, 0.9) * len / h;
    g_n = 2;
    g_A[0][0] = g_A[1][1] = (l1 + l2) / 2; g_A[0][1] = g_A[1][0] = (l1 - l2) / 2;
    y[0] = 1; y[1] = 0;
    e += one(false, d, h, y.data(), 0);
    double full[2] = {y[0], y[1]};
    g_dense = false; g_A[0][0] = l1; g_A[1][1] = l2; y[0] = y[1] = 1;
    e += one(false, d, h, y.data(), 0);
    double diag[2] = {y[0], y[1]};
    g_dense = true;
    jvec("full", full, 2); jvec("diag", diag, 2);
    ji("exc", e); ji("calls", calls); ji("alias", g_alias);
    jend();
  }
}
// ---- integrations ----------------------------------------------------------------
// unknowns: 0 time of the linear problem (its derivative is unknown 1), 1 one
// (affine problem: unknown 0 has derivative b = 1), 2 and 3: symmetric block
static double g_l1, g_l2;
static void matrix(bool affine) {
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g_A[i][j] = 0;
  if (!affine) g_A[0][1] = 1;
  g_A[2][2] = g_A[3][3] = (g_l1 + g_l2) / 2; g_A[2][3] = g_A[3][2] = (g_l1 - g_l2) / 2;
}
template <class S> static void finish(const char *ev, S &s, int exc, const double *y, bool refused) {
  jbegin(ev); ji("exc", exc); jvec("y", y, g_n); ji("id", id_of(y));
  if (!refused) { ji("nsteps", s.NbSteps()); ji("nf", s.NbRhsComputed()); ji("nst", s.NbStages()); jd("time", s.Time()); }
  ji("size", s.nbUnkn()); ji("alias", g_alias); ji("rhos", g_rhos); jb("refused", refused);
  jend();
}
static void run(Fonc &F, Lin &L, Aff &A, bool affine, bool wrong, double t0, double te, double h, double *y, double *b) {
  g_calls = 0; g_alias = 0; g_rhos = 0; g_budget = 20000;
  matrix(affine);
  y[0] = 0; y[1] = 1; y[2] = rnd(-2, 2); y[3] = rnd(-2, 2);
  b[0] = 1; b[1] = 0; b[2] = rnd(-1, 1); b[3] = rnd(-1, 1);
  if (rnd01() < 0.2) b[2] = b[3] = 0;
  jbegin("start"); jb("affine", affine); jb("wrong", wrong); jd("t", t0); jd("tend", te); jd("h", h); jd("rho", g_rho);
  jvec("y", y, g_n); jvec("b", b, g_n); jd("l1", g_l1); jd("l2", g_l2); ji("id", id_of(y)); jend();
  alarm(60);
  if (affine != wrong) { int e = exc_of_aff(A, y, b, t0, te, h); alarm(0); if (wrong) ; finish("end", A, e, y, false); }
  else { int e = exc_of_lin(L, y, t0, te, h); alarm(0); finish("end", L, e, y, false); }
}
static void refuse(Fonc &F, Lin &L, Aff &A, bool affine, double *y, double *b) {
  // the call form of the other kind of solver
  g_calls = 0; g_alias = 0; g_rhos = 0; g_budget = 20000;
  matrix(affine);
  for (int i = 0; i < 4; i++) y[i] = rnd(-2, 2);
  jbegin("start"); jb("affine", affine); jb("wrong", true); jd("t", 0); jd("tend", 1); jd("h", 0.1); jd("rho", g_rho);
  jvec("y", y, g_n); jvec("b", b, g_n); jd("l1", g_l1); jd("l2", g_l2); ji("id", id_of(y)); jend();
  int e = 0;
  if (affine) { try { A(y, 0, 1, 0.1); } catch (OdesException &) { e = 1; } catch (Stop &) { e = 2; } finish("end", A, e, y, true); }
  else { try { L(y, b, 0, 1, 0.1); } catch (OdesException &) { e = 1; } catch (Stop &) { e = 2; } finish("end", L, e, y, true); }
}
static const int KINDS = 10;
static void scenario(int k) {
  g_ids.clear();
  g_n = 4; g_dense = true; g_shift = false;
  Fonc F;
  Lin L(F); Aff A(F);
  double *y = allocDoubleArray(g_n), *b = allocDoubleArray(g_n);
  jbegin("trace"); ji("k", k); jend();
  bool affine = (k / KINDS) % 2;
  double h = std::pow(10., rnd(-2.5, -0.3)), te = h * rnd(0.3, 12);
  g_l1 = -rnd(0, 4) / h; g_l2 = -rnd(0, 4) / h;
  g_rho = rnd(0, 1) * rnd(0, 1) * 8000 / h;
  double lm = std::fmax(-g_l1, -g_l2);
  if (g_rho < lm) g_rho = lm;
  switch (k % KINDS) {
  case 0: run(F, L, A, affine, false, 0, te, h, y, b); break;
  case 1: { double t0 = rnd(-5, 5); run(F, L, A, affine, false, t0, t0 + te, h, y, b); break; }
  case 2: // end points which round
    g_l1 = -0.5; g_l2 = -0.1; g_rho = 1;
    run(F, L, A, affine, false, std::ldexp(1., -53), 1 + std::ldexp(1., -52), 1 / 3., y, b);
    run(F, L, A, affine, false, std::ldexp(1., -53), 1 + std::ldexp(1., -52), 1.5, y, b);
    for (int i = 0; i < 6; i++) {
      double t0 = std::ldexp(rnd(1, 2), -rndi(1, 53)), t1 = rnd(1, 2);
      run(F, L, A, affine, false, t0, t1, (t1 - t0) * rnd(1, 2) / rndi(1, 3), y, b);
    }
    run(F, L, A, affine, false, 0.1, 0.1 + 3 * 0.1, 0.1, y, b);
    run(F, L, A, affine, false, 0, 0.7, 0.1, y, b);
    break;
  case 3: // exact multiples, a little more or less than one step
  {
    int m = rndi(1, 6);
    run(F, L, A, affine, false, 0, m * h, h, y, b);
    run(F, L, A, affine, false, 0, m * h * rnd(1, 1.03), h, y, b);
    run(F, L, A, affine, false, 0, m * h * rnd(0.97, 1), h, y, b);
    break;
  }
  case 4: // no degree suffices
    g_rho = rnd(8100, 8300) / h;
    run(F, L, A, affine, false, 0, te, h, y, b);
    g_rho = 8000 / h; h *= 1.01 * 1.02; te = h * 1.002;
    run(F, L, A, affine, false, 0, te, h, y, b);
    break;
  case 5: // every number of stages
    for (int i = 0; i < 8; i++) {
      int st = 5 + (8 * (k / (2 * KINDS)) + i) % 150;
      double s1 = st - rnd(0.01, 0.99);
      g_rho = (s1 * s1 * 0.353 - 3) / h;
      if (g_rho < 0) g_rho = 0;
      if (g_rho < lm) { g_l1 = -g_rho * rnd01(); g_l2 = -g_rho * rnd01(); }
      run(F, L, A, affine, false, 0, h * rnd(1, 1.01), h, y, b);
    }
    break;
  case 6: // refused
    refuse(F, L, A, affine, y, b);
    run(F, L, A, affine, false, 0, te, h, y, b);
    refuse(F, L, A, affine, y, b);
    break;
  case 7: // nothing to do, tiny steps
  {
    double hs[3] = {0, 1e-17, 0.9e-15};
    run(F, L, A, affine, false, 1, 1, h, y, b);
    run(F, L, A, affine, false, 2, 1, h, y, b);
    run(F, L, A, affine, false, 0, 1, hs[(k / KINDS) % 3], y, b);
    g_rho = 1; g_l1 = g_l2 = -0.5;
    run(F, L, A, affine, false, 0, 1.3e-15, h, y, b);
    run(F, L, A, affine, false, 0, te, h, y, b);
    break;
  }
  case 8: // one object, several spectral radii
    for (int i = 0; i < 4; i++) {
      g_rho = rnd(lm, 8000 / h);
      if (i == 2) affine = !affine;
      run(F, L, A, affine, false, 0, te, h, y, b);
    }
    break;
  case 9: // degree changes with the last step
    g_rho = rnd(500, 7900) / h;
    run(F, L, A, affine, false, 0, h * (rndi(0, 4) + rnd01() * rnd01()), h, y, b);
    break;
  }
  destroyDoubleArray(y); destroyDoubleArray(b);
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  if (std::string(argv[2]) == "tab") { tables(); fclose(OUT); return 0; }
  long seed = atol(argv[2]);
  int count = atoi(argv[3]), from = argc > 4 ? atoi(argv[4]) : 0;
  for (int k = from; k < from + count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 177;
    scenario(k);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
