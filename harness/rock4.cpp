// Executions of Rock4 on generated problems. usage: rock4 OUT SEED COUNT, or rock4 OUT tab
//
// Rock4 only integrates autonomous problems; the last unknown is a clock (its
// derivative is 1), which makes steps and stages visible.
#include "logdump.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
#include <map>
using namespace odes;
typedef void (*Fct)(double *, double *);

static int g_n = 5;                       // unknowns, with the clock
static std::map<const double *, int> g_ids;   // buffers, numbered by first use
static int id_of(const double *p) {
  std::map<const double *, int>::iterator i = g_ids.find(p);
  if (i != g_ids.end()) return i->second;
  int k = g_ids.size(); g_ids[p] = k; return k;
}
// what rho() answers
static double g_rho = 1; static int g_rho_kind = 0; static long g_rho_calls = 0;

// the coefficients: the tests of the tables use other right-hand sides
static int g_mode = 0;       // 0 problem; 1 unit vectors; 2 a few unit answers; 3 diagonal
static int g_k1 = -1, g_k2 = -1;
static std::vector<double> g_clocks;
static long g_stop = 0;
static std::vector<std::vector<double> > g_args;
static std::vector<double> g_lambda;

struct Fonc {
  int size() const { return g_n; }
  double rho() {
    double r = g_rho;
    switch (g_rho_kind) {
    case 1: r *= 1 + 0.6 * g_rho_calls; break;               // growing
    case 2: r *= (g_rho_calls % 3 == 1) ? 6 : (g_rho_calls % 3 == 2 ? 0.3 : 1); break;
    case 3: r = 0; break;
    case 4: if (g_rho_calls >= 2) r *= 40; break;
    }
    g_rho_calls++;
    hadd(&r, 1);
    if (g_log && g_mode == 0) { jbegin("R"); jd("rho", r); jend(); }
    return r;
  }
  void operator()(double *y, double *r) {
    if (g_mode == 0) { call(y, r); return; }
    long k = g_calls++;
    if (k > g_stop) throw Stop();
    for (int i = 0; i < g_n; i++) r[i] = 0;
    if (g_mode == 1) { g_args.push_back(std::vector<double>(y, y + g_n)); r[k] = 1; }
    if (g_mode == 2) { g_clocks.push_back(y[g_n - 1]); if (k == g_k1 || k == g_k2) r[0] = 1; r[g_n - 1] = 1; }
    if (g_mode == 3) { g_args.push_back(std::vector<double>(y, y + g_n)); for (int i = 0; i < g_n; i++) r[i] = g_lambda[i] * y[i]; }
  }
  void call(double *y, double *r) {
    std::vector<double> in(y, y + g_n);
    long k = g_calls++;
    if (g_budget > 0 && k >= g_budget) throw Stop();
    int m = g_n - 1;
    double t = in[m];
    rhs_raw(t, in.data(), r);
    r[m] = 1;
    if (k >= P.flip_from && k < P.flip_to) for (int i = 0; i < m; i++) r[i] *= P.flip;
    if (k >= P.nan_from && k < P.nan_to) for (int i = 0; i < m; i++) r[i] = P.nan_val;
    hadd(in.data(), g_n);
    if (g_log) { jbegin("F"); jvec("y", in.data(), g_n); jvec("r", r, g_n); ji("in", id_of(y)); ji("out", id_of(r)); jend(); }
  }
};
typedef Rock4<Fonc> Solver;

struct Conf { double atol = 1e-5, rtol = 1e-5; };
static Conf C;
static void end_record(const char *e, Solver &S, int exc, const double *y) {
  jbegin(e); ji("exc", exc); jvec("y", y, g_n); ji("id", id_of(y));
  ji("nsteps", S.NbSteps()); ji("nacc", S.NbAccepted()); ji("nrej", S.NbRejected());
  ji("nf", S.NbRhsComputed()); ji("nst", S.NbStages()); jd("hlast", S.NbAccepted() > 0 ? S.LastAcceptedTimeStep() : 0.0);
  ji("size", S.nbUnkn());
  fprintf(OUT, ",\"hash\":\"%016llx\"", (unsigned long long)g_hash);
  jend();
}
static int call(Solver &S, double *&y, double t0, double tend, double h) {
  g_calls = 0; g_hash = 0; g_rho_calls = 0; g_budget = 6000;
  int exc = 0;
  alarm(100);
  try { S(y, t0, tend, h); }
  catch (OdesException &) { exc = 1; }
  catch (Stop &) { exc = 2; }
  alarm(0);
  return exc;
}
static Solver *g_first = 0;
static bool g_lost = false;   // interrupted by the watchdog: the solver is in no state to be deleted
static bool run(Fonc &F, Solver &S, double *&y, double t0, double tend, double h) {
  if (g_lost) return false;
  double *y1 = allocDoubleArray(g_n);
  y[g_n - 1] = 0;
  for (int i = 0; i < g_n; i++) y1[i] = y[i];
  jbegin("start"); jd("t", t0); jd("tend", tend); jd("h", h); jvec("y", y, g_n); ji("n", g_n); ji("id", id_of(y));
  jd("atol", C.atol); jd("rtol", C.rtol); jb("never", P.nan_from >= 0 && P.nan_to >= 1000000); jend();
#ifdef LOGOUT
  static int g_turn = 0;
  bool cleared = g_turn++ % 3 == 0;
  if (cleared) S.Log().clear();
#endif
  int exc = call(S, y, t0, tend, h);
  end_record("end", S, exc, y);
  if (exc == 2) g_lost = true;
  if (g_first == &S && exc < 2) {
    g_log = false;
    Solver *N = new Solver(F);
    N->setTolerances(C.atol, C.rtol);
    int e1 = call(*N, y1, t0, tend, h);
    end_record("twin", *N, e1, y1);
    delete N;
    g_log = true;
  }
#ifdef LOGOUT
  if (exc < 2) log_record(S.Log(), cleared);
#endif
  g_first = &S;
  destroyDoubleArray(y1);
  return exc == 0;
}
static void problem(double stiff, double cubic) {
  random_problem(g_n - 1, g_n, g_n, stiff, cubic, 0);
  P.w = rnd01() < 0.4 ? 0 : rnd(0.5, 10);
  for (int i = 0; i < g_n - 1; i++) P.g[i] = P.w != 0 ? rnd(-2, 2) : 0;
  double r = 0;
  for (int i = 0; i < P.n; i++) { double s = 0; for (int j = 0; j < P.n; j++) s += std::fabs(P.A[i][j]); r = std::fmax(r, s); }
  g_rho = r + 10 * cubic; g_rho_kind = 0;
}
static void y_init(double *y) { for (int i = 0; i < g_n - 1; i++) y[i] = rnd(0.3, 1.6) * (rnd01() < 0.3 ? -1 : 1); y[g_n - 1] = 0; }
// another unit of time
static void rescale(double s) {
  for (int i = 0; i < P.n; i++) { P.g[i] *= s; for (int j = 0; j < P.n; j++) P.A[i][j] *= s; }
  P.c *= s; P.w *= s; P.tc /= s; g_rho *= s;
}
// the used object, with the options it has now, against a new one: integrations which are not recorded
static void again(Fonc &F, Solver &S) {
  for (int i = 0; i < 3 && !g_lost; i++) {
    g_log = false;
    problem(std::pow(10., rnd(0, 3)), rnd01() < 0.5 ? rnd(0, 3) : 0);
    if (i == 1) { P.flip_from = rndi(5, 60); P.flip_to = P.flip_from + rndi(1, 14); P.flip = rnd(-80, 80); }
    if (i == 2) { P.tc = rnd(0.05, 0.3); P.jump = rnd(-20, 40); g_rho_kind = rndi(0, 4); }
    double h = std::pow(10., rnd(-4, -0.5)), tend = rnd(0.1, 0.6);
    double *y = allocDoubleArray(g_n), *z = allocDoubleArray(g_n);
    y_init(y);
    for (int j = 0; j < g_n; j++) z[j] = y[j];
    int e = call(S, y, 0, tend, h);
    g_log = true;
    if (e == 2) { g_lost = true; break; }
    end_record("again", S, e, y);
    g_log = false;
    Solver *N = new Solver(F);
    N->setTolerances(C.atol, C.rtol);
    int f = call(*N, z, 0, tend, h);
    g_log = true;
    end_record("twin", *N, f, z);
    if (f < 2) { delete N; destroyDoubleArray(y); destroyDoubleArray(z); }
  }
}
static const int KINDS = 17;
static void scenario(int k) {
  C = Conf();
  g_first = 0; g_lost = false; g_ids.clear();
  g_n = rndi(2, 6);
  Fonc F;
  Solver *SP = new Solver(F);
  Solver &S = *SP;
  double *y = allocDoubleArray(g_n);
  y_init(y);
  double t0 = 0, tend = rnd(0.1, 1), h = std::pow(10., rnd(-4, -1));
  problem(std::pow(10., rnd(0, 3.3)), rnd01() < 0.5 ? rnd(0, 3) : 0);
  if (k % KINDS != 12) { double tol = std::pow(10., rnd(-7, -2)); C.atol = tol; C.rtol = tol * std::pow(10., rnd(-1, 1)); S.setTolerances(C.atol, C.rtol); }
  jbegin("trace"); ji("k", k); jend();
  switch (k % KINDS) {
  case 0: run(F, S, y, t0, tend, h); break;
  case 1: // first steps too long
    problem(rnd(1, 50), rnd(0, 5));
    run(F, S, y, t0, tend, rnd(0.1, 2)); break;
  case 2: // bursts of wrong values
    P.flip_from = rndi(0, 200); P.flip_to = P.flip_from + rndi(1, 60); P.flip = rnd(-80, 80);
    run(F, S, y, t0, tend, h); break;
  case 3: // not a number
    P.nan_from = rndi(0, 150); P.nan_to = P.nan_from + (rnd01() < 0.6 ? rndi(1, 40) : 1000000);
    if (rnd01() < 0.4) P.nan_val = INFINITY;
    run(F, S, y, t0, tend, h);
    y_init(y); P.nan_from = P.nan_to = -1;
    run(F, S, y, t0, 0.2, h); break;
  case 4: // always wrong from some call on: the error never passes
    P.flip_from = rndi(20, 120); P.flip_to = 1000000; P.flip = rnd(1e3, 1e9);
    C.atol = C.rtol = 1e-9; S.setTolerances(1e-9, 1e-9);
    run(F, S, y, t0, tend, h);
    y_init(y); P.flip_from = P.flip_to = -1;
    C.atol = C.rtol = 1e-4; S.setTolerances(1e-4, 1e-4);
    run(F, S, y, t0, tend, h); break;
  case 5: // spectral radius which varies
  case 6:
    g_rho_kind = k % KINDS == 5 ? 1 : rndi(2, 4);
    run(F, S, y, t0, rnd(0.5, 3), h); break;
  case 7: // end points which round
    problem(rnd(1, 20), 0);
    if ((k / KINDS) % 2 == 0) { t0 = std::ldexp(1., -53); tend = 1 + std::ldexp(1., -52); }
    else { t0 = rnd(-1, 1) * std::pow(10., rnd(-3, 3)); tend = t0 + rnd(0.05, 1.5); }
    C.atol = C.rtol = 1e-3; S.setTolerances(1e-3, 1e-3);
    run(F, S, y, t0, tend, (k / KINDS) % 2 == 0 ? 1 / 3. : h); break;
  case 8: // quadrature, zero
    named_problem(rndi(3, 4), g_n - 1, 1); P.w = rnd(0, 8); g_rho = rnd(0, 3);
    run(F, S, y, t0, rnd(0.5, 20), h); break;
  case 9: // the maximum degree
    problem(std::pow(10., rnd(4, 5)), 0);
    g_rho *= rnd(1, 30);
    C.atol = C.rtol = 1e-2; S.setTolerances(1e-2, 1e-2);
    run(F, S, y, t0, rnd(5, 40) * 8155 / g_rho, rnd(0.05, 1)); break;
  case 10: // several integrations
    for (int i = 0; i < 3; i++) { run(F, S, y, t0, rnd(0.05, 0.4), h); if (i == 1) y_init(y); h = S.LastAcceptedTimeStep(); }
    break;
  case 11: // nothing to do, steps too small
  {
    double hs[3] = {0, 1e-17, 0.9e-15};
    run(F, S, y, 1, 1, 0.1);
    run(F, S, y, 0, 0.5, hs[(k / KINDS) % 3]);
    run(F, S, y, 0, 1.3e-15, 0.1);
    run(F, S, y, 0, 0.3, 0.1);
    break;
  }
  case 12: // default tolerances
    run(F, S, y, t0, tend, h); break;
  case 13: // spectral radius underestimated: unstable
    problem(rnd(50, 400), 0); g_rho *= rnd(0.02, 0.3);
    run(F, S, y, t0, tend, rnd(0.01, 0.3)); break;
  case 15: // every number of stages
    for (int i = 0; i < 8; i++) {
      int st = 5 + (8 * (k / KINDS) + i) % 150;
      named_problem(3, g_n - 1, 1); P.w = 0.1;
      h = std::pow(10., rnd(-3, -1));
      double s1 = st - rnd(0.01, 0.99);
      g_rho = (s1 * s1 * 0.353 - 3) / h;
      if (g_rho < 0) g_rho = 0;
      y_init(y);
      run(F, S, y, 0, h * rnd(1, 1.2), h);
    }
    break;
  case 16: // very short or very long times
    problem(rnd(1, 20), rnd01() < 0.5 ? rnd(0, 2) : 0);
    rescale(std::pow(10., rnd01() < 0.5 ? rnd(5, 10) : rnd(-8, -3)));
    if (rnd01() < 0.4) { P.tc = rnd(0.1, 0.5) / g_rho; P.jump = rnd(-5, 5); }
    t0 = 0; tend = rnd(1, 10) / g_rho;
    run(F, S, y, t0, tend, rnd(0.001, 0.3) / g_rho);
    y_init(y); t0 = rnd(-1, 1) / g_rho;
    run(F, S, y, t0, t0 + rnd(1, 5) / g_rho, rnd(0.001, 2) / g_rho);
    break;
  case 14: // sharp change: rejections in the middle
    problem(rnd(1, 30), rnd(0, 2)); P.tc = tend * rnd(0.2, 0.98); P.jump = rnd(-30, 40); g_rho *= std::fabs(P.jump);
    run(F, S, y, t0, tend, h); break;
  }
  if (g_lost) return;
  again(F, S);
  if (g_lost) return;
  // the user's vector is his, whatever its address has become
  for (int i = 0; i < g_n; i++) y[i] = 1000 + i;
  delete SP;
  std::vector<double *> v;
  for (int i = 0; i < 64; i++) { double *p = allocDoubleArray(g_n); v.push_back(p); for (int j = 0; j < g_n; j++) p[j] = -1; }
  bool ok = true;
  for (int i = 0; i < g_n; i++) ok = ok && y[i] == 1000 + i;
  for (size_t i = 0; i < v.size(); i++) { ok = ok && v[i] != y; destroyDoubleArray(v[i]); }
  jbegin("owner"); jb("intact", ok); jend();
  destroyDoubleArray(y);
}

// ---- tables -------------------------------------------------------------------
static const int DEG[50] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 41,
                           44, 47, 50, 53, 56, 59, 63, 67, 71, 76, 81, 86, 92, 98, 105, 112, 120, 129, 138, 148};
static void one_run(int n, int d, double h, double atol, long stop) {
  g_n = n; g_calls = 0; g_stop = stop; g_rho_kind = 0; g_rho_calls = 0;
  // a spectral radius for which this degree is chosen, not far from the previous degree
  int before = 0;
  for (int q = 0; q < 50; q++) if (DEG[q] < d) before = DEG[q];
  double s = before + 4.5;
  g_rho = (s * s * 0.353 - 3) / h;
  if (g_rho < 0) g_rho = 0;
  Fonc F;
  Solver &S = *new Solver(F);   // not deleted: interrupted by an exception of ours
  S.setTolerances(atol, g_mode == 2 ? 0 : atol);
  double *y = allocDoubleArray(n);
  for (int i = 0; i < n; i++) y[i] = g_mode == 3 ? 1 : 0;
  try { S(y, 0, 1e6, h); } catch (Stop &) {} catch (OdesException &) {}
}
static void tables() {
  std::vector<std::vector<double> > cs(50);
  for (int q = 0; q < 50; q++) {
    int d = DEG[q], m = d + 4;
    g_mode = 1; g_args.clear();
    one_run(m + 2, d, 1.0, 1e30, m);
    jbegin("tab"); ji("d", d); fprintf(OUT, ",\"A\":[");
    cs[q].assign(m + 1, 0.0);
    for (int k = 1; k <= m; k++) {
      fprintf(OUT, k > 1 ? ",[" : "[");
      for (int j = 0; j < k; j++) {
        double a = k < (int)g_args.size() ? g_args[k][j] : NAN;
        if (j) fputc(',', OUT);
        jnum(a); cs[q][k] += a;
      }
      // an argument never depends on later evaluations
      for (int j = k; j < m + 2; j++) if (k < (int)g_args.size() && g_args[k][j] != 0) { fputs(",\"nan\"", OUT); break; }
      fputc(']', OUT);
    }
    fputc(']', OUT); jvec("c", cs[q].data() + 1, m); jend();
  }
  // weights of the error estimator, seen through the next step
  for (int q = 0; q < 50; q++) {
    int d = DEG[q], m = d + 4;
    for (int pr = 0; pr < 10; pr++) {
      // 0..4: one of the last five evaluations; 5..8: the first of them and another; 9: one of the recurrence
      int k1 = pr < 5 ? m - 4 + pr : pr < 9 ? m - 4 : rndi(0, m - 5), k2 = pr >= 5 && pr < 9 ? m - 4 + pr - 4 : -1;
      double best = NAN, bestatol = 0;
      for (int e = 20; e >= -72; e--) {
        double atol = std::pow(10., 0.125 * e);
        g_mode = 2; g_k1 = k1; g_k2 = k2; g_clocks.clear();
        one_run(2, d, 1.0, atol, m + 160);
        if ((int)g_clocks.size() < m + 160) continue;
        double ratio = NAN;
        for (int q2 = 0; q2 < 50; q2++) {
          int m2 = DEG[q2] + 4;
          double h2 = g_clocks[m + m2] - 1;
          bool ok = h2 > 0;
          for (int k = 1; k <= m2 && ok; k++) ok = std::fabs(g_clocks[m + k] - 1 - cs[q2][k] * h2) < 1e-9;
          if (ok) { ratio = h2; break; }
        }
        if (!(ratio > 0)) continue;
        best = ratio; bestatol = atol;
        // small enough to be limited by nothing else
        if (ratio < 0.89) break;
      }
      jbegin("weight"); ji("d", d); ji("p", pr); jd("ratio", best); jd("atol", bestatol); jend();
    }
  }
  // the stability polynomial
  for (int q = 0; q < 50; q++) {
    int d = DEG[q], m = d + 4;
    double len = 0.353 * m * m - 3;
    for (int part = 0; part < 2; part++) {
      g_lambda.assign(65, 0.0);
      for (int i = 0; i < 64; i++) g_lambda[i] = part == 0 ? -0.9999 * len * (i + 1) / 64. : -0.9999 * len * rnd01();
      if (part == 1) for (int i = 0; i < 16; i++) g_lambda[i] = -0.03 * (i + 1);
      g_mode = 3; g_args.clear();
      one_run(65, d, 1.0, 1e30, m);
      jbegin("stab"); ji("d", d); ji("small", part == 1 ? 16 : 0); jvec("z", g_lambda.data(), 64);
      if ((int)g_args.size() > m) jvec("R", g_args[m].data(), 64); else fputs(",\"R\":[]", OUT);
      jend();
    }
  }
  g_mode = 0;
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  if (std::string(argv[2]) == "tab") { tables(); fclose(OUT); return 0; }
  long seed = atol(argv[2]);
  int count = atoi(argv[3]), from = argc > 4 ? atoi(argv[4]) : 0;
  for (int k = from; k < from + count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 77;
    scenario(k);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
