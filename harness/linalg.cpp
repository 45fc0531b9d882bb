// Histories of the linear algebra (Matrices, arrays). usage: linalg OUT SEED SCRIPTS
// a script: form number ops   (J r c s z, see spec/LinalgGen.tla)
#include "probe.hpp"
#include <iostream>
#include <fstream>
#include <algorithm>
#include "AllocateDestroyVector.hpp"
#include "protos_lapack.hpp"
#include "Matrices.hpp"
using namespace odes;

template <bool F, bool H, int n, int a, int b> struct Open : public Matrices<F, H, n, a, b> {
  typedef Matrices<F, H, n, a, b> M;
  using M::calhes; using M::decomr; using M::decomc; using M::solvereal; using M::solvecomplex; using M::Ibegin; using M::Iend;
};
static void rows(const char *k, const std::vector<double> &m, int n) {
  fprintf(OUT, ",\"%s\":[", k);
  for (int i = 0; i < n; i++) { fputs(i ? ",[" : "[", OUT); for (int j = 0; j < n; j++) { if (j) fputc(',', OUT); jnum(m[i * n + j]); } fputc(']', OUT); }
  fputc(']', OUT);
}
static double value(int kind) {
  switch (kind % 4) {
  case 0: return rndi(-3, 3);
  case 1: return rnd(-2, 2);
  case 2: return rnd64() % 2 ? 0 : rndi(-2, 2);
  default: return rnd(-1, 1) * std::pow(10., rndi(-6, 6));
  }
}
// kinds: random; upper triangular; lower; with a null column or row
template <int n> static std::vector<double> matrix(int sub, int sup) {
  std::vector<double> J(n * n, 0.);
  int kind = rndi(0, 3), shape = rndi(0, 9);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (i - j > sub || j - i > sup) continue;
    double v = value(kind);
    if (shape <= 1 && i > j) v = 0;
    if (shape == 2 && i < j) v = 0;
    if (shape == 3 && i != j && rnd64() % 4) v = 0;
    J[i * n + j] = v;
  }
  if (shape == 4) { int k = rndi(0, n - 1); for (int i = 0; i < n; i++) J[i * n + k] = 0; }
  if (shape == 5) { int k = rndi(0, n - 1); for (int i = 0; i < n; i++) J[k * n + i] = 0; }
  if (shape == 6) for (int i = 0; i < n; i++) J[i * n + i] = 0;
  return J;
}
template <class A> static void fillarray(A &a, int size, double v) { double *p = &a; for (int i = 0; i < size; i++) p[i] = v; }
template <class M, int n> static void run(const char *form, int sub, int sup, const std::string &ops, int asize) {
  jbegin("make"); js("form", form); ji("n", n); ji("sub", sub); ji("sup", sup); jend();
  M *L = new M();
  typename M::MatrixReal *Jac = new typename M::MatrixReal();
  fortranVectorF<n> *Z = new fortranVectorF<n>, *W = new fortranVectorF<n>;
  bool hess = std::string(form) == "hess", red = false, okr = false, okc = false;
  std::vector<double> J;
  for (char o : ops) {
    if (o == 'J') {
      J = matrix<n>(hess ? n : sub, hess ? n : sup);
      if (hess || sub >= n - 1) {}
      fillarray(*Jac, asize, rnd64() % 2 ? NAN : 7e77);   // what is not in the band does not count
      std::vector<int> seen;
      // as the integrators do, column after column
      std::vector<std::pair<int, int>> cells;
      for (int j = 1; j <= n; j++) for (int i = L->Ibegin(j); i <= L->Iend(j); i++) cells.push_back({i, j});
      for (size_t k = cells.size(); k > 1; k--) std::swap(cells[k - 1], cells[rnd64() % k]);
      bool in = true;
      for (auto &c : cells) if (c.first < 1 || c.first > n) in = false;
      if (in) for (auto &c : cells) (*Jac)(c.first, c.second) = J[(c.first - 1) * n + c.second - 1];
      bool same = in;
      const typename M::MatrixReal &K = *Jac;
      if (in) for (auto &c : cells) if (!(K(c.first, c.second) == J[(c.first - 1) * n + c.second - 1])) same = false;
      std::sort(cells.begin(), cells.end());
      jbegin("jac"); rows("J", J, n); jb("kept", same); ji("cells", (long)cells.size());
      jb("distinct", std::unique(cells.begin(), cells.end()) == cells.end());
      long want = 0; bool band = true;
      for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (i - j <= sub && j - i <= sup) want++;
      for (auto &c : cells) if (c.first - c.second > sub || c.second - c.first > sup) band = false;
      ji("want", want); jb("band", band); jend();
      if (!same) break;
      L->calhes = true; red = false;
      if (hess) okr = okc = false;
    } else if (o == 'r') {
      double fac = rnd64() % 2 ? rnd(-3, 3) : rnd64() % 3 == 0 ? std::pow(10., rndi(-5, 5)) : J[rndi(0, n - 1) * (n + 1)];
      int exc = 0;
      try { L->decomr(fac, *Jac); } catch (OdesException &) { exc = 1; }
      okr = !exc; red = true;
      if (hess && L->calhes) red = false;
      jbegin("decomr"); jd("fac", fac); ji("exc", exc); jend();
    } else if (o == 'c') {
      if (hess && !red) continue;
      double al = rnd64() % 2 ? rnd(-3, 3) : J[rndi(0, n - 1) * (n + 1)], be = rnd64() % 5 == 0 ? rndi(0, 2) : rnd(0.1, 4);
      if (rnd64() % 6 == 0) { double s = std::pow(10., rndi(-5, 5)); al *= s; be *= s; }
      int exc = 0;
      try { L->decomc(al, be, *Jac); } catch (OdesException &) { exc = 1; }
      okc = !exc;
      jbegin("decomc"); jd("alpha", al); jd("beta", be); ji("exc", exc); jend();
    } else if (o == 's' && okr) {
      int kind = rndi(0, 3); double b[n], x[n];
      for (int i = 0; i < n; i++) (*Z)(i + 1) = b[i] = value(kind);
      int exc = 0;
      try { L->solvereal(*Z, *Jac); } catch (OdesException &) { exc = 1; }
      for (int i = 0; i < n; i++) x[i] = (*Z)(i + 1);
      jbegin("solver"); jvec("b", b, n); jvec("x", x, n); ji("exc", exc); jend();
    } else if (o == 'z' && okc) {
      int kind = rndi(0, 3); double b[n], c[n], x[n], y[n];
      for (int i = 0; i < n; i++) { (*Z)(i + 1) = b[i] = value(kind); (*W)(i + 1) = c[i] = value(kind); }
      int exc = 0;
      try { L->solvecomplex(*Z, *W, *Jac); } catch (OdesException &) { exc = 1; }
      for (int i = 0; i < n; i++) { x[i] = (*Z)(i + 1); y[i] = (*W)(i + 1); }
      jbegin("solvec"); jvec("b", b, n); jvec("c", c, n); jvec("x", x, n); jvec("y", y, n); ji("exc", exc); jend();
    }
  }
  delete L; delete Jac; delete Z; delete W;
}
template <class M> static void refused(const char *form, int n, int sub, int sup) {
  int exc = 0;
  try { M L; } catch (OdesException &) { exc = 1; }
  jbegin("trace"); ji("k", -1); jend();
  jbegin("refuse"); js("form", form); ji("n", n); ji("sub", sub); ji("sup", sup); ji("exc", exc); jend();
}
typedef void (*Runner)(const std::string &);
template <int n> static void full(const std::string &o) { run<Open<true, false, n, n - 1, n - 1>, n>("full", n - 1, n - 1, o, n * n); }
template <int n> static void hess(const std::string &o) { run<Open<true, true, n, n - 1, n - 1>, n>("hess", n - 1, n - 1, o, n * n); }
template <int n, int a, int b> static void band(const std::string &o) { run<Open<false, false, n, a, b>, n>("band", a, b, o, n * (2 * a + b + 1)); }
static Runner FULL[] = {full<1>, full<2>, full<3>, full<4>, full<6>, full<9>, full<17>};
static Runner HESS[] = {hess<1>, hess<2>, hess<3>, hess<4>, hess<6>, hess<9>, hess<17>, hess<3>, hess<5>};
static Runner BAND[] = {band<2, 0, 0>, band<2, 1, 0>, band<2, 0, 1>, band<3, 1, 1>, band<3, 2, 1>, band<4, 0, 3>, band<4, 2, 3>, band<5, 1, 2>,
                        band<5, 3, 0>, band<6, 4, 4>, band<7, 1, 5>, band<8, 2, 3>, band<9, 6, 1>, band<12, 5, 2>, band<12, 0, 0>, band<16, 3, 4>};
int main(int argc, char **argv) {
  probe_open(argv[1]);
  long seed = atol(argv[2]);
  std::ifstream in(argv[3]);
  std::string form, ops; int k = 0;
  if (argc > 4) {
    refused<Open<false, false, 3, 3, 1>>("band", 3, 3, 1);
    refused<Open<false, false, 3, 1, 3>>("band", 3, 1, 3);
    refused<Open<false, false, 4, 5, 0>>("band", 4, 5, 0);
    refused<Open<false, false, 4, 3, 2>>("band", 4, 3, 2);
    refused<Open<false, true, 4, 1, 1>>("hess", 4, 1, 1);
    refused<Open<false, true, 5, 4, 0>>("hess", 5, 4, 0);
  }
  while (in >> k >> form >> ops) {
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 4242;
    alarm(30);
    jbegin("trace"); ji("k", k); jend();
    bool large = rnd64() % 60 == 0;   // blocked algorithms of LAPACK
    if (large) alarm(60);
    if (large && form == "full") full<70>(ops.substr(0, 9));
    else if (large && form == "hess") hess<140>(ops.substr(0, 9));
    else if (large) band<70, 34, 36>(ops.substr(0, 9));
    else if (form == "full") FULL[rnd64() % 7](ops);
    else if (form == "hess") HESS[rnd64() % 9](ops);
    else BAND[rnd64() % 16](ops);
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
