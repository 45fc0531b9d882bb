// Executions of Radau5cc on generated problems. usage: radau OUT SEED COUNT
// CONF selects the instantiation.
#ifndef NOLOG
#define LOGRADAU5
#endif
#include "logdump.hpp"
#include "AllocateDestroyVector.hpp"
#include "Radau5cc.hpp"
#include "MatrixType.hpp"
#include <sstream>
using namespace odes;
#if CONF == 0
#define C_N 2
#define C_NSUB 1
#define C_NSUP 1
#define C_HESS false
#define C_NUMJ true
#elif CONF == 1
#define C_N 3
#define C_NSUB 2
#define C_NSUP 2
#define C_HESS false
#define C_NUMJ false
#elif CONF == 2
#define C_N 3
#define C_NSUB 2
#define C_NSUP 2
#define C_HESS true
#define C_NUMJ true
#elif CONF == 3
#define C_N 5
#define C_NSUB 1
#define C_NSUP 2
#define C_HESS false
#define C_NUMJ false
#elif CONF == 4
#define C_N 4
#define C_NSUB 2
#define C_NSUP 0
#define C_HESS false
#define C_NUMJ true
#elif CONF == 5
#define C_N 1
#define C_NSUB 0
#define C_NSUP 0
#define C_HESS false
#define C_NUMJ false
#elif CONF == 6
#define C_N 4
#define C_NSUB 3
#define C_NSUP 3
#define C_HESS true
#define C_NUMJ false
#elif CONF == 7
#define C_N 1
#define C_NSUB 0
#define C_NSUP 0
#define C_HESS false
#define C_NUMJ true
#elif CONF == 8
#define C_N 6
#define C_NSUB 0
#define C_NSUP 2
#define C_HESS false
#define C_NUMJ true
#elif CONF == 9
#define C_N 8
#define C_NSUB 3
#define C_NSUP 1
#define C_HESS false
#define C_NUMJ true
#elif CONF == 10
#define C_N 5
#define C_NSUB 4
#define C_NSUP 4
#define C_HESS false
#define C_NUMJ true
#endif
struct Probe {
  static const int n = C_N, nsub = C_NSUB, nsup = C_NSUP;
  static const bool Hessenberg = C_HESS, ComputeJacobianNumerically = C_NUMJ;
  typedef Matrixtype<n, nsub, nsup>::Matrix Matrix;
  void operator()(double t, double *y, double *r) const { rhs_call(t, y, r); }
  void Jacobian(double t, fortranVector y, const fortranVector Fy, Matrix &J) {
    double yy[n], ff[n];
    for (int i = 0; i < n; i++) { yy[i] = y(i + 1); ff[i] = Fy(i + 1); }
    jac_call(t, yy, ff, J, nsub, nsup);
  }
};
typedef Radau5cc<Probe> Solver;

struct Conf {
  int nmax = 10000, nit = 7;
  bool one = false, gus = true, scalar = true, lng = false;
  double safe = 0.9, thet = 0.001, facr = 1. / 8, facl = 5, fnewt = -1;   // -1: the default
  double atol[C_N], rtol[C_N];
};
static Conf C;

static void start_record(double x, double xend, double h, const double *y) {
  jbegin("start"); jd("x", x); jd("xend", xend); jd("h", h); jvec("y", y, C_N);
  ji("n", C_N); ji("nsub", C_NSUB); ji("nsup", C_NSUP); jb("hess", C_HESS); jb("numj", C_NUMJ);
  ji("nmax", C.nmax); jb("one", C.one); jb("gus", C.gus); jd("safe", C.safe);
  ji("nit", C.nit); jd("thet", C.thet); jd("facr", C.facr); jd("facl", C.facl);
  if (C.fnewt > 0) jd("fnewt", C.fnewt); else js("fnewt", "nan");
  jvec("atol", C.atol, C_N); jvec("rtol", C.rtol, C_N); jb("long", C.lng);
  jend();
}
static void options(Solver &S) {
  S.setTestPolicy(C.scalar, C.atol, C.rtol);
  S.setNmax(C.nmax); S.performOnlyOneStep(C.one); S.setGustafssonTest(C.gus); S.setSafe(C.safe);
  S.setMaxIterationsNewton(C.nit); S.setRecomputeJacobianTreshold(C.thet); S.setFacrFacl(C.facr, C.facl);
  if (C.fnewt > 0) S.setFnewt(C.fnewt);
}
static void end_record(const char *e, Solver &S, int exc, double x, const double *y) {
  jbegin(e); ji("exc", exc); jd("x", x); jvec("y", y, C_N);
  ji("nstep", S.getNstep()); ji("naccpt", S.getNaccpt()); ji("nrejct", S.getNrejct());
  ji("njac", S.getNJac()); ji("ndec", S.getNdec()); jd("first", S.getNaccpt() > 0 ? S.getfirstAcceptedStep() : 0.0);
  jd("hlast", S.getLastTimeStep()); ji("nf", S.getNfoncCalled()); ji("newt", S.getNewt());
  fprintf(OUT, ",\"hash\":\"%016llx\"", (unsigned long long)g_hash);
  jend();
}
static int call(Solver &S, double h, double &x, double xend, double *y) {
  g_calls = 0; g_hash = 0; g_budget = (long)(C.nmax + 3) * (2 * C_N + 3 * C.nit + 4) + 200;
  bool capped = g_budget > 60000;
  if (capped) g_budget = 60000;
  int exc = 0;
  alarm(100);
  try { S(h, x, xend, y); }
  catch (OdesException &) { exc = 1; }
  catch (Stop &) { exc = capped ? 3 : 2; }
  alarm(0);
  return exc;
}
static Solver *g_first = 0;   // last object used: a later call with it is a reuse
// one call of the integrator
static bool run(Solver &S, double h, double &x, double xend, double *y) {
  double x0 = x, y0[C_N];
  for (int i = 0; i < C_N; i++) y0[i] = y[i];
  start_record(x, xend, h, y);
  int exc = call(S, h, x, xend, y);
  end_record("end", S, exc, x, y);
  if (g_first == &S && exc < 2) {
    // the same call on a new object
    g_log = false;
    Solver N(true, C.atol, C.rtol);
    options(N);
    double x1 = x0;
    int e1 = call(N, h, x1, xend, y0);
    end_record("twin", N, e1, x1, y0);
    g_log = true;
  }
#ifdef LOGOUT
  if (exc < 2) log_record(S.Log(), true);
#endif
  g_first = &S;
  return exc == 0;
}
static void tolerances(Solver &S, double a, double r, bool scalar) {
  C.scalar = scalar;
  for (int i = 0; i < C_N; i++) {
    C.atol[i] = scalar ? a : a * std::pow(10., rnd(-1.5, 1.5));
    C.rtol[i] = scalar ? r : r * std::pow(10., rnd(-1.5, 1.5));
  }
  S.setTestPolicy(scalar, C.atol, C.rtol);
}
static void y_init(double *y) { for (int i = 0; i < C_N; i++) y[i] = rnd(0.3, 1.6) * (rnd01() < 0.3 ? -1 : 1); }


static void problem(bool easy) {
  bool autonomous = rnd01() < 0.35;
  double w = autonomous ? 0 : rnd(0.5, 12);
  random_problem(C_N, C_NSUB, C_NSUP, easy ? rnd(1, 20) : std::pow(10., rnd(0, 3.5)), rnd01() < 0.6 ? rnd(0, 3) : 0, w);
  if (easy) return;
  if (C_N == 2 && rnd01() < 0.35) named_problem(1, C_N, std::pow(10., rnd(0, 2)));
  if (C_N == 3 && C_NSUB == 2 && rnd01() < 0.2) named_problem(2, C_N, 1);
}
static void reverse() {
  for (int i = 0; i < C_N; i++) for (int j = 0; j < C_N; j++) P.A[i][j] = -P.A[i][j];
  P.c = -P.c; P.dir = -1;
}
// another unit of time
static void rescale(double s) {
  for (int i = 0; i < C_N; i++) { P.g[i] *= s; for (int j = 0; j < C_N; j++) P.A[i][j] *= s; }
  P.c *= s; P.w *= s; P.tc /= s;
}
// the used object, with the options it has now, against a new one: integrations which are not recorded
static void again(Solver &S) {
  for (int i = 0; i < 3; i++) {
    g_log = false;
    problem(i == 1);
    if (i == 1) { P.flip_from = rndi(5, 60); P.flip_to = P.flip_from + rndi(1, 14); P.flip = rnd(-80, 80); }
    if (i == 2) { P.jacfac = rnd(0.7, 1.4); P.tc = rnd(0.05, 0.3); P.jump = rnd(-20, 40); }
    double y0[C_N], y[C_N], z[C_N], h = std::pow(10., rnd(-4, -0.5)), x = 0, v = 0, xend = rnd(0.1, 0.6);
    y_init(y0);
    for (int j = 0; j < C_N; j++) y[j] = z[j] = y0[j];
    int e = call(S, h, x, xend, y);
    g_log = true;
    if (e < 2) {
      end_record("again", S, e, x, y);
      g_log = false;
      Solver N(true, C.atol, C.rtol);
      options(N);
      int f = call(N, h, v, xend, z);
      g_log = true;
      end_record("twin", N, f, v, z);
    }
  }
}
// one scenario = the history of one object
static const int KINDS = 23;
static void scenario(int k) {
  C = Conf();
  double tol = std::pow(10., rnd(-7, -2.5)), tola = tol * std::pow(10., rnd(-1, 0.5));
  for (int i = 0; i < C_N; i++) { C.atol[i] = tola; C.rtol[i] = tol; }
  g_first = 0;
  Solver S(true, C.atol, C.rtol);
  double y[C_N];
  y_init(y);
  double x = 0, xend = 1, h = 1e-3;
  problem(false);
  jbegin("trace"); ji("k", k); jend();
  switch (k % KINDS) {
  case 0: // plain, default options
    xend = rnd(0.2, 2); h = std::pow(10., rnd(-5, -1));
    run(S, h, x, xend, y);
    break;
  case 1: // backward
    problem(true); reverse();
    x = rnd(0.5, 2); xend = x - rnd(0.2, 1.5); h = rnd(-1, 1) * 0.1;
    run(S, h, x, xend, y);
    break;
  case 2: // null, tiny, negative or huge proposed steps; object reused
  {
    double hs[4] = {0, -rnd(0.01, 0.2), 1e3, 1e-14};
    for (int i = 0; i < 3; i++) {
      x = i == 1 ? -0.5 : 0; xend = x + rnd(0.1, 0.6); y_init(y);
      run(S, hs[(k / KINDS + i) % 4], x, xend, y);
    }
    break;
  }
  case 3: // discontinuity: rejections, Newton's failures
  case 4:
    random_problem(C_N, C_NSUB, C_NSUP, rnd(2, 40), rnd(0, 2), rnd01() < 0.4 ? 0 : 3);
    P.tc = rnd(0.2, 0.8); P.jump = rnd(-40, 60); xend = 1.0;
    if (k % KINDS == 4) P.tc = rnd(0.97, 0.9999);   // near the end: the last step is rejected
    if (rnd01() < 0.4) { x = 1; xend = 0; P.tc = 1 - P.tc; P.c = 0; reverse(); }
    S.setSafe(C.safe = rnd(0.7, 0.95));
    run(S, 1e-2, x, xend, y);
    break;
  case 5: // bursts of wrong values: failures anywhere, several in a row
    problem(true);
    P.flip_from = rndi(0, 60); P.flip_to = P.flip_from + rndi(1, 14); P.flip = rnd(-80, 80);
    run(S, 0.05, x, xend = rnd(0.3, 1), y);
    break;
  case 6: // step limit, then the same object again
    S.setNmax(C.nmax = rndi(0, 12));
    run(S, 1e-4, x, xend, y);
    S.setNmax(C.nmax = 4000); P.flip_from = -1;
    run(S, 1e-3, x, x + 0.2, y);
    break;
  case 7: // not a number / infinite
    problem(true);
    S.setNmax(C.nmax = rndi(8, 25));
    P.nan_from = rndi(0, 70); P.nan_to = rnd01() < 0.5 ? P.nan_from + rndi(1, 6) : 1000000;
    if (rnd01() < 0.4) P.nan_val = INFINITY;
    run(S, 0.05, x, xend, y);
    P.nan_from = -1; P.nan_to = -1; x = 0; y_init(y);
    S.setNmax(C.nmax = 3000);
    run(S, 0.01, x, 0.3, y);
    break;
  case 8: // one step mode
    S.performOnlyOneStep(C.one = true);
    h = 1e-3; xend = 0.5;
    if (rnd01() < 0.5) { P.tc = 0.2; P.jump = -20; }
    for (int i = 0; i < 20 && x != xend; i++) {
      if (!run(S, h, x, xend, y)) break;
      h = S.getLastTimeStep() * (i % 3 == 0 ? 3 : 1);
    }
    S.performOnlyOneStep(C.one = false);
    xend = x + 0.25;
    run(S, h, x, xend, y);
    break;
  case 9: // empty interval, then not
    x = rnd(-2, 2);
    run(S, 0.1, x, x, y);
    run(S, 0.1, x, x + 0.3, y);
    run(S, 0.0, x, x, y);
    break;
  case 10: // vector tolerances
    tolerances(S, tola, tol, false);
    run(S, 1e-3, x, rnd(0.3, 1.2), y);
    x = 0; y_init(y); tolerances(S, tola, tol, true);
    run(S, 1e-3, x, 0.4, y);
    break;
  case 11: // options of the control law; kept across integrations
    S.setGustafssonTest(C.gus = false); S.setSafe(C.safe = rnd(0.6, 0.98));
    S.setFacrFacl(C.facr = rnd(0.2, 0.9), C.facl = rnd(1.5, 6));
    run(S, 1e-3, x, rnd(0.3, 1.2), y);
    x = 0; y_init(y); S.setGustafssonTest(C.gus = true);
    run(S, 1e-3, x, 0.5, y);
    break;
  case 12: // far from the origin; intervals in a few steps
    problem(true);
    x = rnd(50, 2000); xend = x + rnd(0.5, 3);
    run(S, 10, x, xend, y);
    xend = x - rnd(0.001, 0.002);
    if (rnd01() < 0.5) run(S, 1e-3, x, xend, y);
    break;
  case 13: // a wrong Jacobian: slow convergence, failures
    P.jacfac = rnd01() < 0.5 ? rnd(0.2, 0.9) : rnd(1.1, 2.5);
    run(S, 0.05, x, rnd(0.2, 0.8), y);
    break;
  case 14: // always wrong
    problem(true);
    S.setNmax(C.nmax = rndi(5, 25));
    P.flip_from = rndi(20, 50); P.flip_to = 1000000; P.flip = rnd(-1e3, 1e3);
    run(S, 0.05, x, xend, y);
    y_init(y); x = 0; P.flip_from = P.flip_to = -1; S.setNmax(C.nmax = 5000);
    run(S, 0.05, x, 0.3, y);
    break;
  case 15: // zero and quadrature problems
    named_problem(rndi(3, 4), C_N, 1); P.w = rnd(0, 8);
    run(S, std::pow(10., rnd(-8, 0)), x, rnd(0.5, 20), y);
    break;
  case 16: // limits of Newton's iteration
    S.setMaxIterationsNewton(C.nit = rndi(1, 12));
    if (rnd01() < 0.5) P.jacfac = rnd(0.5, 1.8);
    S.setNmax(C.nmax = 60);
    if (rnd01() < 0.6) { P.flip_from = rndi(10, 80); P.flip_to = P.flip_from + rndi(1, 5); P.flip = rnd(-10, 10); }
    run(S, 0.02, x, rnd(0.2, 0.8), y);
    break;
  case 17: // threshold of the Jacobian: often, or (nearly) never recomputed
    S.setRecomputeJacobianTreshold(C.thet = std::pow(10., rnd(-5, -0.5)));
    if (rnd01() < 0.5) { P.tc = rnd(0.05, 0.3); P.jump = rnd(-10, 10); }
    run(S, 1e-3, x, rnd(0.2, 1), y);
    break;
  case 18: // criterion of Newton's iteration
  {
    double f = std::pow(10., rnd(-8, -0.5));
    double bad = 1e-16 / (0.1 * std::pow(C.rtol[0], 2. / 3)) * (rnd01() < 0.7 ? rnd(0.1, 0.99) : rnd(1.01, 3));
    bool ref = false;
    try { S.setFnewt(bad); } catch (OdesException &) { ref = true; }
    jbegin("refuse"); jd("value", bad); jd("rtol1", C.rtol[0]); jb("refused", ref); jend();
    if (!ref) C.fnewt = bad;
    run(S, 1e-3, x, 0.05, y);
    S.setFnewt(C.fnewt = f);
    if (rnd01() < 0.5) S.setRecomputeJacobianTreshold(C.thet = std::pow(10., rnd(-4, -1)));
    run(S, 1e-3, x, rnd(0.3, 1), y);
    break;
  }
  case 19: // the Jacobian is kept for long, then wrong: failures after several steps
    random_problem(C_N, C_NSUB, C_NSUP, rnd(1, 10), 0, rnd(1, 5));
    S.setRecomputeJacobianTreshold(C.thet = rnd(0.05, 0.9));
    P.tc = rnd(0.3, 0.7); P.jump = rnd(20, 400);
    run(S, 1e-3, x, 1, y);
    break;
  case 20: // the evaluation of the error estimate fails
    random_problem(C_N, C_NSUB, C_NSUP, rnd(1, 10), rnd(0, 3), rnd(1, 12));
    P.nan_t = x; P.nan_skip = C_NUMJ ? C_N : 0; P.nan_cnt = rndi(1, 3);
    run(S, 0.5, x, 2, y);
    break;
  case 21: // few iterations: converged or exhausted, rarely "too slow"
    S.setMaxIterationsNewton(C.nit = rndi(1, 3));
    S.setFnewt(C.fnewt = std::pow(10., rnd(-5, -2)));
    S.setNmax(C.nmax = 120);
    random_problem(C_N, C_NSUB, C_NSUP, rnd(1, 10), rnd(0.5, 6), rnd(0, 5));
    P.jacfac = rnd(0.9, 1.1);
    S.setRecomputeJacobianTreshold(C.thet = std::pow(10., rnd(-3, -0.3)));
    run(S, 1e-4, x, 0.3, y);
    break;
  case 22: // very short or very long times
  {
    double s = std::pow(10., rnd01() < 0.7 ? rnd(13, 16) : rnd(-9, -4));
    problem(true);
    if (rnd01() < 0.3) { P.tc = rnd(0.05, 0.3); P.jump = rnd(-10, 10); }
    rescale(s);
    run(S, rnd(0, 0.01) / s, x, rnd(0.5, 3) / s, y);
    x = rnd(-1, 1) / s; y_init(y);
    run(S, rnd(0, 0.5) / s, x, x + rnd(0.2, 2) / s, y);
    break;
  }
  }
  again(S);
}
// the long history of one object: many attempts, many integrations
static void history() {
  C = Conf(); C.lng = true;
  double tol = 1e-7;
  for (int i = 0; i < C_N; i++) { C.atol[i] = tol; C.rtol[i] = tol; }
  g_first = 0;
  Solver S(true, C.atol, C.rtol);
  double y[C_N], x = 0;
  y_init(y);
  jbegin("trace"); ji("k", -1); jend();
  random_problem(C_N, C_NSUB, C_NSUP, rnd(3, 30), rnd(0.5, 3), rnd(5, 12));
  C.nmax = rndi(250, 330); S.setNmax(C.nmax);
  run(S, 1e-3, x, 400, y);
  C.nmax = 60; S.setNmax(C.nmax);
  for (int i = 0; i < 14; i++) {
    x = 0; y_init(y);
    if (i % 4 == 3) problem(true);
    S.performOnlyOneStep(C.one = i % 7 == 5);
    run(S, std::pow(10., rnd(-3, -1)), x, C.one ? 0.3 : rnd(0.02, 0.4), y);
    if (C.one) for (int j = 0; j < 10 && x != 0.3; j++) run(S, S.getLastTimeStep(), x, 0.3, y);
  }
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  long seed = atol(argv[2]);
  int count = atoi(argv[3]);
  for (int k = 0; k < count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)CONF * 7919u + (uint64_t)k * 104729u;
    scenario(k);
    fflush(OUT);
  }
  if (argc > 4) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)CONF * 7919u + 77777777u;
    history();
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
