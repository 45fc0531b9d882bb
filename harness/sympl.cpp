// Steps of SymplecticRK. usage: sympl OUT tab | sympl OUT SEED COUNT [FROM]
// LD: long double. SLO, SHI: numbers of stages compiled.
#include "probe.hpp"
#include <iostream>
#include "SymplecticRK.hpp"
using namespace odes;
#ifdef LD
typedef long double Real;
static const char *PREC = "long";
static void num(Real v) { fprintf(OUT, "\"%.25Lg\"", v); }
#else
typedef double Real;
static const char *PREC = "double";
static void num(Real v) { fprintf(OUT, "\"%.17gd\"", v); }
#endif
static void vec(const char *k, const Real *v, int n) {
  fprintf(OUT, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { if (i) fputc(',', OUT); num(v[i]); }
  fputc(']', OUT);
}
static void one(const char *k, Real v) { fprintf(OUT, ",\"%s\":", k); num(v); }
static void mat(const char *k, const Real *v, int s, int n) {
  fprintf(OUT, ",\"%s\":[", k);
  for (int i = 0; i < s; i++) { fputs(i ? ",[" : "[", OUT); for (int j = 0; j < n; j++) { if (j) fputc(',', OUT); num(v[i * n + j]); } fputc(']', OUT); }
  fputc(']', OUT);
}
// ---- coefficients: the right-hand side gives unit vectors, stage after stage -----------
struct Calls { std::vector<Real> in, out; };
static Calls g_c;
template <int s> struct UnitF {
  static const int n = s;
  void operator()(Real *x, Real *r) {
    int k = (g_c.in.size() / s) % s;
    for (int i = 0; i < s; i++) { g_c.in.push_back(x[i]); r[i] = i == k; }
    g_calls++;
  }
};
template <int s> static void table() {
  SymplecticRK<UnitF<s>, s, Real> R(12);
  Real u[s], b[s]; bool first = true;
  for (int i = 0; i < s; i++) u[i] = 0;
  std::vector<Real> A(s * s), Q(s * s);
  g_c = Calls(); bool ok = R.step(1, u, first);
  for (int i = 0; i < s * s && s * s + i < (int)g_c.in.size(); i++) A[i] = g_c.in[s * s + i];
  for (int i = 0; i < s; i++) b[i] = u[i];
  g_c = Calls(); first = false; ok = R.step(1, u, first) && ok;
  for (int i = 0; i < s * s && i < (int)g_c.in.size(); i++) Q[i] = g_c.in[i];
  jbegin("table"); js("prec", PREC); ji("s", s); jb("ok", ok); vec("b", b, s); mat("a", &A[0], s, s); mat("q", &Q[0], s, s);
  // another step: everything is scaled
  Real h = std::ldexp((Real)rndi(3, 9), -rndi(1, 12)) / 7;
  for (int i = 0; i < s; i++) u[i] = 0;
  SymplecticRK<UnitF<s>, s, Real> P(12);
  first = true; g_c = Calls(); ok = P.step(h, u, first);
  for (int i = 0; i < s * s && s * s + i < (int)g_c.in.size(); i++) A[i] = g_c.in[s * s + i];
  for (int i = 0; i < s; i++) b[i] = u[i];
  one("h", h); vec("hb", b, s); mat("ha", &A[0], s, s); jend();
}
// ---- histories ------------------------------------------------------------------------
static int g_kind; static Real g_w[64]; static Real g_lam[64]; static Real g_cst[64];
static Real g_cut = 0; static bool g_osc = false; // no convergence is wanted
template <int N> struct Pb {
  static const int n = N;
  void operator()(Real *x, Real *r) {
    for (int i = 0; i < n; i++) g_c.in.push_back(x[i]);
    g_calls++;
    for (int i = 0; i < n; i++) {
      int j = (i + 1) % n, k = (i + n - 1) % n;
      switch (g_kind) {
      case 0: r[i] = g_w[i] * x[j] - g_w[k] * (n > 1 ? x[k] : 0); break;               // rotation
      case 1: r[i] = (i % 2 == 0 && i + 1 < n) ? x[i + 1] : -g_w[i] * std::sin(x[i > 0 ? i - 1 : 0]); break; // pendulum
      case 2: r[i] = g_lam[i] * x[i]; break;                                          // decoupled, some diverge
      case 3: r[i] = g_cst[i]; break;                                                 // constant
      case 4: r[i] = g_w[i] * std::floor(x[j] * 1024) / 1024 - x[i] * x[i] * x[i]; break; // rough
      case 5: r[i] = g_cut > 0 && (x[i] > g_cut || x[i] < -g_cut) ? (Real)NAN : g_w[i] * x[j]; break;
      default: r[i] = (i == 0 ? g_lam[0] * x[0] : g_cst[i] * x[0] - g_w[i] * x[i]); break; // one drives
      }
    }
    if (g_osc) r[0] += (Real)((g_c.in.size() / n) % 7) * (Real)0.125;
    for (int i = 0; i < n; i++) g_c.out.push_back(r[i]);
  }
};
// the test f which only looks at some unknowns would not see the others: the
// unknowns converge at different speeds
template <int s, int N> static void scenario(int k, bool lng) {
  jbegin("trace"); ji("k", k); jend();
  int itermax = rnd64() % 3 == 0 ? rndi(2, 12) : rndi(30, 120);
  if (lng) itermax = 60;
  SymplecticRK<Pb<N>, s, Real> *R = new SymplecticRK<Pb<N>, s, Real>(itermax);
  g_kind = lng ? (rnd64() % 2 ? 3 : 0) : rndi(0, 6);
  Real big = std::pow(10., rndi(-1, 3)); if (!lng) big = 1;
  for (int i = 0; i < N; i++) {
    g_w[i] = rnd(0.2, 2); g_lam[i] = rnd64() % 3 == 0 ? -rnd(1, 40) : -rnd(0.01, 1); g_cst[i] = rnd(-1, 1);
    if (lng) { g_cst[i] *= std::pow(10., rnd(-8, 0)); g_w[i] *= 0.01; }
  }
  g_cut = rnd64() % 2 ? 3 : 0;
  Real u[N], u0[N]; bool first = true;
  for (int i = 0; i < N; i++) u[i] = big * rnd(-2, 2);
  Real h = lng ? (Real)std::pow(10., rnd(-9, -5)) / 3 : (Real)std::pow(10., rnd(-3, 0)) / 3;
  bool always = lng && rnd64() % 3 == 0; // as the examples do
  if (lng && rnd64() % 3 == 0) h *= 1000;
  if (rnd64() % 6 == 0) h = -h;
  if (rnd64() % 5 == 0) h = 1;
  int steps = lng ? (s > 6 ? 200 : 400) : s * N > 60 ? 5 : s * N > 24 ? 9 : 14;
  jbegin("new"); js("prec", PREC); ji("s", s); ji("n", N); ji("itermax", itermax); jend();
  for (int st = 0; st < steps; st++) {
    if (!lng) {
      if (rnd64() % 4 == 0) h *= (Real)(rnd64() % 2 ? rnd(0.3, 2) : 0.5);
      if (rnd64() % 15 == 0) { h = 1; }
      if (rnd64() % 8 == 0) h *= 1 + (Real)std::pow(10., rnd(-14, -3)); // nearly the same step
      if (rnd64() % 15 == 0) h = -h;
      if (rnd64() % 12 == 0) { first = true; if (rnd64() % 2) for (int i = 0; i < N; i++) u[i] = rnd(-2, 2); }
      if (fabsl(h) > 4) h = 0.25;
    }
    bool fst = first, r = first;
    for (int i = 0; i < N; i++) u0[i] = u[i];
    g_c = Calls(); g_c.in.reserve(8192); g_osc = rnd64() % 15 == 0;
    bool ok = R->step(h, u, r);
    long m = (long)g_c.in.size() / (s * N);
    bool whole = g_c.in.size() % (s * N) == 0 && m > 0;
    if (!whole) { jbegin("shape"); jend(); break; }
    if (lng) {
      jbegin("far"); one("h", h); jb("first", fst); jb("ok", ok); vec("u", u0, N); vec("v", u, N);
      mat("F", &g_c.out[(m - 1) * s * N], s, N); jend();
    } else {
      jbegin("step"); one("h", h); jb("first", fst); vec("u", u0, N); mat("Y0", &g_c.in[0], s, N); ji("m", m); jend();
      // not all the iterations are kept
      for (long q = 0; q < m; q++) if (q == 0 || q == m - 1 || (s * N < 60 ? q == 1 || q % 5 == 0 : q == 3)) {
        jbegin("it"); ji("q", q); mat("Y", &g_c.in[q * s * N], s, N); mat("F", &g_c.out[q * s * N], s, N);
        jb("next", q + 1 < m); if (q + 1 < m) mat("Z", &g_c.in[(q + 1) * s * N], s, N); jend();
      }
      // how many of the last iterates are the same
      long same = 0;
      for (long q = m - 1; q > 0; q--) { bool eq = true; for (int i = 0; i < s * N; i++) if (g_c.in[q * s * N + i] != g_c.in[(q - 1) * s * N + i]) eq = false; if (!eq) break; same++; }
      jbegin("out"); jb("ok", ok); ji("iter", R->maxIter()); one("diff", R->lastdiff()); vec("v", u, N); ji("same", same); jend();
    }
    bool fin = true;
    for (int i = 0; i < N; i++) if (!(fabsl(u[i]) < 1e12)) fin = false;
    first = always;
    if (!ok && (rnd64() % 2 || !fin)) {   // after a failure, most users reduce the step
      if (rnd64() % 4) h *= 0.25; else first = true;
    }
    if (!fin) { for (int i = 0; i < N; i++) u[i] = rnd(-2, 2); first = true; jbegin("reset"); jend(); }
  }
  delete R;
}
template <int s> struct Each {
  static void tables() { Each<s - 1>::tables(); table<s>(); }
  static void run(int s0, int k, int which, bool lng) {
    if (s0 != s) { Each<s - 1>::run(s0, k, which, lng); return; }
    if (lng && which == 2) which = 1;
    if (which == 0) scenario<s, 1>(k, lng); else if (which == 1) scenario<s, 4>(k, lng); else scenario<s, s + 3>(k, lng);
  }
};
template <> struct Each<SLO - 1> { static void tables() {} static void run(int, int, int, bool) {} };
int main(int argc, char **argv) {
  probe_open(argv[1]);
  if (std::string(argv[2]) == "tab") { alarm(60); Each<SHI>::tables(); fclose(OUT); return 0; }
  long seed = atol(argv[2]);
  int count = atoi(argv[3]), from = argc > 4 ? atoi(argv[4]) : 0;
  for (int k = from; k < from + count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 999 * SLO + sizeof(Real);
    alarm(60);
    Each<SHI>::run(SLO + k % (SHI - SLO + 1), k, rndi(0, 2), k % 6 == 0);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
