// Recording right-hand sides, common to the harnesses of the integrators.
//
// The code under test is used through its public interface only; every call
// it makes to the user's object is recorded, one JSON object per line.
#ifndef PROBE_HPP
#define PROBE_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <unistd.h>

struct Stop {};   // thrown by the watchdog

static FILE *OUT = 0;
static long g_calls = 0, g_budget = 0;   // right-hand side calls of this run, limit
static bool g_log = true;
static uint64_t g_hash = 0;                // of all the calls of this run
static inline void hadd(const double *v, int n) {
  for (int i = 0; i < n; i++) {
    uint64_t b; double d = v[i] == 0 ? 0.0 : v[i]; if (d != d) d = NAN;
    __builtin_memcpy(&b, &d, 8); if (d != d) b = 12345;
    g_hash = (g_hash ^ b) * 0x100000001B3ull; g_hash ^= g_hash >> 29;
  }
}

// ---- pseudo random numbers --------------------------------------------------
static uint64_t g_rng = 1;
static inline uint64_t rnd64() {
  g_rng += 0x9E3779B97F4A7C15ull;
  uint64_t z = g_rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline double rnd01() { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
static inline double rnd(double a, double b) { return a + (b - a) * rnd01(); }
static inline int rndi(int a, int b) { return a + (int)(rnd64() % (uint64_t)(b - a + 1)); }

// ---- output -------------------------------------------------------------------
static inline void jnum(double v) { fprintf(OUT, "\"%.17gd\"", v); }
static inline void jvec(const char *k, const double *v, int n) {
  fprintf(OUT, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { if (i) fputc(',', OUT); jnum(v[i]); }
  fputc(']', OUT);
}
static inline void jd(const char *k, double v) { fprintf(OUT, ",\"%s\":", k); jnum(v); }
static inline void ji(const char *k, long v) { fprintf(OUT, ",\"%s\":%ld", k, v); }
static inline void js(const char *k, const char *v) { fprintf(OUT, ",\"%s\":\"%s\"", k, v); }
static inline void jb(const char *k, bool v) { fprintf(OUT, ",\"%s\":%s", k, v ? "true" : "false"); }
static inline void jbegin(const char *e) { fprintf(OUT, "{\"e\":\"%s\"", e); }
static inline void jend() { fputs("}\n", OUT); }

static void on_signal(int s) {
  // not async-signal safe, but the process is lost anyway
  if (OUT) { fprintf(OUT, "\n{\"e\":\"crash\",\"sig\":%d}\n", s); fflush(OUT); }
  _exit(0);
}
static inline void probe_open(const char *f) {
  OUT = fopen(f, "w");
  if (!OUT) { perror(f); exit(3); }
  signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGFPE, on_signal);
  signal(SIGABRT, on_signal); signal(SIGALRM, on_signal); signal(SIGILL, on_signal);
  // the exceptions of the library print on cout
  if (!freopen("/dev/null", "w", stdout)) {}
  setvbuf(OUT, 0, _IOFBF, 1 << 20);
}

// ---- the test problem ---------------------------------------------------------
// y_i' = s(t) * ( sum_j A_ij y_j - c y_i^3 ) + g_i cos(w t)     kind 0
// Van der Pol, Oregonator, ...                                  other kinds
static const int NMAXP = 64;
struct Problem {
  int kind = 0, n = 0;
  double A[NMAXP][NMAXP], g[NMAXP];
  double c = 0, w = 0;
  double tc = 1e300, jump = 1;     // s(t): 1 before tc, jump after (dir*t>=dir*tc)
  int dir = 1;
  double jacfac = 1;               // analytic Jacobian multiplied by this (wrong on purpose)
  long nan_from = -1, nan_to = -1; // calls with index in [from,to) return NaN
  double nan_val = NAN;
  double nan_t = NAN; long nan_skip = 0, nan_cnt = 0; // the first nan_cnt calls at time nan_t, of index > nan_skip
  long flip_from = -1, flip_to = -1; // calls whose result is multiplied by flip
  double flip = -50;
  double mu = 1;
};
static Problem P;

static inline double sfac(double t) { return P.dir * t >= P.dir * P.tc ? P.jump : 1.0; }
static void rhs_raw(double t, const double *y, double *r) {
  int n = P.n;
  switch (P.kind) {
  case 0: {
    double s = sfac(t);
    for (int i = 0; i < n; i++) {
      double v = 0;
      for (int j = 0; j < n; j++) if (P.A[i][j] != 0) v += P.A[i][j] * y[j];
      v -= P.c * y[i] * y[i] * y[i];
      r[i] = s * v + P.g[i] * std::cos(P.w * t);
    }
    break;
  }
  case 1: // Van der Pol
    r[0] = y[1];
    r[1] = P.mu * ((1 - y[0] * y[0]) * y[1]) - y[0];
    for (int i = 2; i < n; i++) r[i] = -y[i];
    break;
  case 2: // Oregonator
    r[0] = 77.27 * (y[1] + y[0] * (1. - 8.375e-06 * y[0] - y[1]));
    r[1] = (y[2] - (1. + y[0]) * y[1]) / 77.27;
    r[2] = 0.161 * (y[0] - y[2]);
    break;
  case 3: // quadrature: polynomial in t plus oscillation
    for (int i = 0; i < n; i++) r[i] = P.g[i] * (std::cos(P.w * t) + i);
    break;
  case 4: // zero
    for (int i = 0; i < n; i++) r[i] = 0;
    break;
  }
}
static void jac_raw(double t, const double *y, double J[NMAXP][NMAXP]) {
  int n = P.n;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i][j] = 0;
  switch (P.kind) {
  case 0: {
    double s = sfac(t);
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) J[i][j] = s * P.A[i][j];
      J[i][i] -= s * 3 * P.c * y[i] * y[i];
    }
    break;
  }
  case 1:
    J[0][1] = 1;
    J[1][0] = -2 * P.mu * y[0] * y[1] - 1;
    J[1][1] = P.mu * (1 - y[0] * y[0]);
    for (int i = 2; i < n; i++) J[i][i] = -1;
    break;
  case 2:
    J[0][0] = 77.27 * (1 - 2 * 8.375e-06 * y[0] - y[1]);
    J[0][1] = 77.27 * (1 - y[0]);
    J[1][0] = -y[1] / 77.27; J[1][1] = -(1 + y[0]) / 77.27; J[1][2] = 1 / 77.27;
    J[2][0] = 0.161; J[2][2] = -0.161;
    break;
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J[i][j] *= P.jacfac;
}
static void dft_raw(double t, const double *y, double *r) {
  for (int i = 0; i < P.n; i++) {
    r[i] = 0;
    if (P.kind == 0 || P.kind == 3) r[i] = -P.w * P.g[i] * std::sin(P.w * t);
  }
}
// a call to the right-hand side, recorded
static void rhs_call(double t, const double *y, double *r) {
  std::vector<double> in(y, y + P.n);
  long k = g_calls++;
  if (g_budget > 0 && k >= g_budget) throw Stop();
  rhs_raw(t, y, r);
  if (k >= P.flip_from && k < P.flip_to) for (int i = 0; i < P.n; i++) r[i] *= P.flip;
  if (k >= P.nan_from && k < P.nan_to) for (int i = 0; i < P.n; i++) r[i] = P.nan_val;
  if (t == P.nan_t && k > P.nan_skip && P.nan_cnt > 0) { P.nan_cnt--; for (int i = 0; i < P.n; i++) r[i] = P.nan_val; }
  hadd(&t, 1); hadd(in.data(), P.n);
  if (g_log) {
    jbegin("F"); jd("t", t); jvec("y", in.data(), P.n); jvec("r", r, P.n); jend();
  }
}
template <class M> static void jac_call(double t, const double *y, const double *fy, M &Jac, int nsub, int nsup) {
  static double J[NMAXP][NMAXP];
  jac_raw(t, y, J);
  for (int j = 1; j <= P.n; j++)
    for (int i = 1; i <= P.n; i++)
      if (i - j <= nsub && j - i <= nsup) Jac(i, j) = J[i - 1][j - 1];
  hadd(&t, 1); hadd(y, P.n);
  if (g_log) {
    jbegin("J"); jd("t", t); jvec("y", y, P.n); jvec("f", fy, P.n);
    fprintf(OUT, ",\"J\":[");
    for (int i = 0; i < P.n; i++) {
      fprintf(OUT, i ? ",[" : "[");
      for (int j = 0; j < P.n; j++) {
        if (j) fputc(',', OUT);
        jnum(i - j <= nsub && j - i <= nsup ? J[i][j] : 0.0);
      }
      fputc(']', OUT);
    }
    fputc(']', OUT);
    jend();
  }
}
static void dft_call(double t, const double *y, double *r) {
  dft_raw(t, y, r);
  hadd(&t, 1); hadd(y, P.n);
  if (g_log) { jbegin("T"); jd("t", t); jvec("y", y, P.n); jvec("r", r, P.n); jend(); }
}
// random stable problem of kind 0 within a band; stiffness about 'stiff'
static void random_problem(int n, int nsub, int nsup, double stiff, double cubic, double w) {
  P = Problem();
  P.kind = 0; P.n = n; P.c = cubic; P.w = w;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      P.A[i][j] = 0;
      if (i - j <= nsub && j - i <= nsup) {
        double sc = std::pow(stiff, i / (double)(n > 1 ? n - 1 : 1));
        P.A[i][j] = i == j ? -sc * rnd(0.6, 1.4) : sc * rnd(-0.5, 0.5) / (n > 1 ? n - 1 : 1);
      }
    }
  for (int i = 0; i < n; i++) P.g[i] = rnd(-1, 1) * (w != 0 ? 3 : 0);
}
static void named_problem(int kind, int n, double mu) {
  P = Problem();
  P.kind = kind; P.n = n; P.mu = mu;
  for (int i = 0; i < n; i++) { P.g[i] = rnd(0.5, 2); for (int j = 0; j < n; j++) P.A[i][j] = 0; }
}
#endif
