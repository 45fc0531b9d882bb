// Rock4 with parallel loops (-DROCK4_OMP, compiled with -fopenmp -fsanitize=thread
// and linked with omprt.cpp) or without (same problems, no parallelism).
// usage: rock4omp OUT SEED COUNT [FROM]
#include "probe.hpp"
#ifdef ROCK4_OMP
#include "omprt.hpp"
#endif
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
#include <map>
#include <algorithm>
using namespace odes;
static int g_n = 1;
static double g_rho = 1, g_c = 0;
static std::vector<const double *> g_vec;
static void vec(const double *p) { if (std::find(g_vec.begin(), g_vec.end(), p) == g_vec.end()) g_vec.push_back(p); }
struct Fonc {
  int size() const { return g_n; }
  double rho() { return g_rho; }
  void operator()(double *y, double *r) {
    vec(y); vec(r);
    if (++g_calls > 20000) throw Stop();
    for (int i = 0; i < g_n; i++) {
      double l = i > 0 ? y[i - 1] : 0, u = i + 1 < g_n ? y[i + 1] : 0;
      r[i] = g_rho / 4 * (l - 2 * y[i] + u) * 0.9 - g_c * y[i] * y[i] * y[i] + 0.1 * (i % 3);
    }
  }
};
static void result(const char *ev, Rock4<Fonc> &S, int e, const double *y, int T) {
  jbegin(ev); ji("T", T); ji("n", g_n); ji("exc", e); jvec("y", y, g_n);
  ji("nsteps", S.NbSteps()); ji("nacc", S.NbAccepted()); ji("nrej", S.NbRejected()); ji("nf", S.NbRhsComputed()); ji("nst", S.NbStages());
  jend();
}
static void scenario(int k) {
  jbegin("trace"); ji("k", k); jend();
  g_n = k % 14 + 1;
  if (k % 7 == 5) g_n = rndi(15, 40);
  g_rho = rnd(5, 400); g_c = rnd(0, 3);
  double tol = std::pow(10., rnd(-7, -3)), te = rnd(0.3, 2), h = te * rnd(0.01, 1.2);
  int T = 1 + rndi(0, 6); double pre[4] = {0, 0.03, 0.3, 1}; double pp = pre[rndi(0, 3)];
  if (k % 5 == 0) T = g_n + rndi(0, 3);
  uint64_t sd = rnd64();
  (void)pp; (void)sd;
  Fonc F;
  Rock4<Fonc> S(F);
  S.setTolerances(tol, tol);
  double *y = allocDoubleArray(g_n);
  for (int i = 0; i < g_n; i++) y[i] = rnd(-1, 1) * (i % 2 ? 3 : 1);
  g_vec.clear(); g_calls = 0;
#ifdef ROCK4_OMP
  rt_reset(); rt_threads = T; rt_preempt = pp; rt_seed = sd; rt_keep = g_n <= 14 ? 2 : 1;
#endif
  alarm(120);
  int e = 0;
  try { S(y, 0., te, h); } catch (OdesException &) { e = 1; } catch (Stop &) { e = 2; }
  alarm(0);
  vec(y);
#ifdef ROCK4_OMP
  std::map<void *, int> sites; std::map<const char *, int> other;
  for (size_t i = 0; i < rt_log.size(); i++) {
    Region &R = rt_log[i];
    if (!sites.count(R.site)) { int q = sites.size(); sites[R.site] = q; }
    jbegin("region"); ji("site", sites[R.site]); ji("T", R.T); ji("n", g_n); ji("nvec", g_vec.size());
    fprintf(OUT, ",\"acc\":[");
    bool first = true;
    for (size_t j = 0; j < R.acc.size(); j++) {
      Access &A = R.acc[j];
      int v = 0, ix = 0;
      for (size_t q = 0; q < g_vec.size() && A.p; q++)
        if (A.p >= (const char *)g_vec[q] && A.p < (const char *)(g_vec[q] + g_n)) { v = q + 1; ix = (A.p - (const char *)g_vec[q]) / 8 + 1; }
      if (!v && A.p) { if (!other.count(A.p)) { int q = other.size() + 1; other[A.p] = q; } ix = other[A.p]; }
      fprintf(OUT, "%s[%d,\"%c\",%d,%d,%s]", first ? "" : ",", A.tid + 1, A.kind, v, ix, A.locked ? "true" : "false");
      first = false;
    }
    fputs("]", OUT); jend();
  }
  jbegin("summary"); ji("regions", rt_regions); ji("switches", rt_switches); ji("sites", sites.size()); ji("T", T); ji("preempt", (long)(100 * pp)); jend();
#endif
  result("result", S, e, y, T);
  if (e != 2) destroyDoubleArray(y);
}
int main(int argc, char **argv) {
  probe_open(argv[1]);
  long seed = atol(argv[2]);
  int count = atoi(argv[3]), from = argc > 4 ? atoi(argv[4]) : 0;
  for (int k = from; k < from + count; k++) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 277;
    scenario(k);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
