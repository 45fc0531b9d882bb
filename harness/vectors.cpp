// Histories of vectors and arrays. usage: vectors OUT SEED SCRIPTS
// a script: its number, the number of operations, the operations, one a line
// (see spec/VectorsGen.tla).  Only the library allocates between two records.
#include "probe.hpp"
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <new>
#include "AllocateDestroyVector.hpp"
#include "fortranVector.hpp"
#include "fortranArray.hpp"
#include "fortranRectangularArray.hpp"
using namespace odes;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static long g_live = 0; static bool g_count = false;
static void on_malloc(const volatile void *, size_t) { if (g_count) g_live++; }
static void on_free(const volatile void *p) { if (g_count && p) g_live--; }
struct Count { Count() { g_count = true; } ~Count() { g_count = false; } };

static const int NOBJ = 10, NUSERS = 3;
static double value() {
  switch (rndi(0, 3)) { case 0: return rndi(-4, 4); case 1: return rnd(-1, 1); case 2: return rnd(-1, 1) * 1e6; default: return rnd(-1e-3, 1e-3); }
}
template <int n> struct World {
  static const int kl = n > 3 ? 2 : n > 1 ? 1 : 0, ku = n > 4 ? 3 : 0;
  typedef fortranVectorF<n> F; typedef fortranVector V; typedef fortranArray<n> A; typedef fortranRectangularArray<n, kl, ku> B;
  struct Slot { char kind = 0; alignas(64) char mem[256]; };
  Slot slot[NOBJ];
  double *user[NUSERS];
  F &f(int o) { return *reinterpret_cast<F *>(slot[o].mem); }
  V &v(int o) { return slot[o].kind == 'F' ? static_cast<V &>(f(o)) : *reinterpret_cast<V *>(slot[o].mem); }
  A &a(int o) { return *reinterpret_cast<A *>(slot[o].mem); }
  B &b(int o) { return *reinterpret_cast<B *>(slot[o].mem); }
  bool inband(int i, int j) { return i - j <= kl && j - i <= ku; }
  double *adr(int o) { switch (slot[o].kind) { case 'A': return &a(o); case 'B': return &b(o); case 'F': return &f(o); default: return &v(o); } }
  int cells(char kind) { if (kind == 'A') return n * n; if (kind != 'B') return n; int k = 0; for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) k += inband(i, j); return k; }
  double &cell(int o, int c) {   // c >= 0
    if (slot[o].kind == 'A') return a(o)(c / n + 1, c % n + 1);
    if (slot[o].kind == 'B') { for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (inband(i, j) && c-- == 0) return b(o)(i, j); }
    if (slot[o].kind == 'F') return f(o)(c + 1);
    return v(o)(c + 1);
  }
  void read(int o, std::vector<double> &x) {   // through the constant access
    x.clear();
    if (slot[o].kind == 'A') { const A &m = a(o); for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) x.push_back(m(i, j)); }
    else if (slot[o].kind == 'B') { const B &m = b(o); for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (inband(i, j)) x.push_back(m(i, j)); }
    else if (slot[o].kind == 'F') { const F &m = f(o); for (int i = 1; i <= n; i++) x.push_back(m(i)); }
    else { const V &m = v(o); for (int i = 1; i <= n; i++) x.push_back(m(i)); }
  }
  std::vector<bool> dead = std::vector<bool>(NOBJ, false);   // the owner has gone: not to be read
  std::map<double *, int> ids;
  int id(double *p) { auto it = ids.find(p); if (it != ids.end()) return it->second; int k = (int)ids.size() + 1; ids[p] = k; return k; }
  void record(const std::vector<std::string> &op, double val, int at, const std::vector<int> &cs, const std::vector<int> &ps, bool sizes) {
    jbegin("op"); js("op", op[0].c_str()); ji("o", op.size() > 1 ? atol(op[1].c_str()) : 0);
    ji("p", op.size() > 2 && ps.empty() ? atol(op[2].c_str()) : 0);
    jd("v", val); ji("at", at); ji("live", g_live); jb("sizes", sizes);
    fputs(",\"cs\":[", OUT); for (size_t i = 0; i < cs.size(); i++) fprintf(OUT, "%s\"%g\"", i ? "," : "", cs[i] * 0.5); fputc(']', OUT);
    fputs(",\"ps\":[", OUT); for (size_t i = 0; i < ps.size(); i++) fprintf(OUT, "%s%d", i ? "," : "", ps[i]); fputc(']', OUT);
    fputs(",\"objs\":[", OUT);
    std::vector<double> x;
    for (int o = 1; o < NOBJ; o++) {
      if (slot[o].kind && !dead[o]) read(o, x); else x.clear();
      char k[2] = {slot[o].kind ? slot[o].kind : '-', 0};
      fprintf(OUT, "%s{\"kind\":\"%s\",\"id\":%d", o > 1 ? "," : "", k, slot[o].kind ? id(adr(o)) : 0);
      jvec("x", x.data(), (int)x.size()); fputc('}', OUT);
    }
    fputs("],\"users\":[", OUT);
    for (int b = 1; b < NUSERS; b++) { fprintf(OUT, "%s{\"id\":%d", b > 1 ? "," : "", id(user[b])); jvec("x", user[b], n); fputc('}', OUT); }
    fputs("]", OUT); jend();
  }
  bool owning(char k) { return k == 'F' || k == 'V' || k == 'A' || k == 'B'; }
  void run(const std::vector<std::vector<std::string>> &ops) {
    for (int b = 1; b < NUSERS; b++) { if (posix_memalign((void **)&user[b], 64, n * sizeof(double))) abort(); for (int i = 0; i < n; i++) user[b][i] = value(); }
    jbegin("make"); ji("n", n);
    for (int k = 0; k < 2; k++) {   // which cells are on the diagonal
      fputs(k ? ",\"diagB\":[" : ",\"diagA\":[", OUT); bool first = true;
      for (int i = 1; i <= n; i++) for (int j = 1; j <= n; j++) if (k == 0 || inband(i, j)) { fprintf(OUT, "%s%s", first ? "" : ",", i == j ? "true" : "false"); first = false; }
      fputc(']', OUT);
    }
    fputs(",\"users\":[", OUT);
    for (int b = 1; b < NUSERS; b++) { fprintf(OUT, "%s{\"id\":%d", b > 1 ? "," : "", id(user[b])); jvec("x", user[b], n); fputc('}', OUT); }
    fputs("]", OUT); jend();
    g_live = 0;
    std::vector<std::vector<std::string>> all = ops;
    for (size_t k = 0; k < all.size() + NOBJ - 1; k++) {
      std::vector<std::string> op;
      if (k < all.size()) op = all[k];
      else { int o = (int)(k - all.size()) + 1; if (!slot[o].kind) continue; op = {"delete", std::to_string(o)}; }
      std::string w = op[0];
      int o = atol(op[1].c_str()), p = op.size() > 2 ? atol(op[2].c_str()) : 0, at = 0;
      double val = 0; bool sizes = true;
      std::vector<int> cs, ps; bool comb = false;
      Slot &s = slot[o];
      if (w.substr(0, 3) == "new") {
        s.kind = w[3];
        { Count c;
          if (s.kind == 'F') new (s.mem) F(); else if (s.kind == 'V') new (s.mem) V(n); else if (s.kind == 'A') new (s.mem) A(); else new (s.mem) B(); }
        for (int i = 0; i < cells(s.kind); i++) cell(o, i) = value();
      } else if (w == "copy") {
        s.kind = slot[p].kind; Count c;
        if (s.kind == 'F') new (s.mem) F(f(p)); else if (s.kind == 'A') new (s.mem) A(a(p)); else new (s.mem) B(b(p));
      } else if (w == "view") { s.kind = 'W'; Count c; const V &q = v(p); new (s.mem) V(q); }
      else if (w == "adopt") { s.kind = 'W'; Count c; new (s.mem) V(user[p], n); }
      else if (w == "delete") {
        bool own = owning(s.kind) && !dead[o]; double *g = adr(o);
        { Count c; if (s.kind == 'F') f(o).~F(); else if (s.kind == 'A') a(o).~A(); else if (s.kind == 'B') b(o).~B(); else v(o).~V(); }
        s.kind = 0; dead[o] = false;
        // the views of what it had
        if (own) { for (int q = 1; q < NOBJ; q++) if (slot[q].kind == 'W' && adr(q) == g) dead[q] = true; }
      }
      else if (w == "set") { int m = cells(s.kind), c0 = rndi(0, m - 1); val = value(); cell(o, c0) = val; at = c0 + 1; }
      else if (w == "switch") { Count c; f(o).switchadr(f(p)); }
      else if (w == "fill") { val = value(); Count c; f(o) = val; }
      else if (w == "from") { Count c; f(o) = user[p]; }
      else if (w == "put") { Count c; f(o).put(user[p]); }
      else if (w == "adddiag") { val = value(); Count c; if (s.kind == 'A') a(o).addDiag(val); else b(o).addDiag(val); }
      else {
        comb = true;
        int m = (int)(op.size() - 2) / 2;
        for (int i = 0; i < m; i++) { cs.push_back(atol(op[2 + i].c_str())); ps.push_back(atol(op[2 + m + i].c_str())); }
        auto c = [&](int i) { return cs[i - 1] * 0.5; };
        auto P = [&](int i) -> F & { return f(ps[i - 1]); };
        auto Q = [&](int i) -> V & { return v(ps[i - 1]); };
        Count cc;
        if (w == "assign") f(o) = P(1);
        else if (w == "aY") f(o).a_Y(c(1), P(1));
        else if (w == "pluseq") f(o) += P(2);
        else if (w == "sumFF") f(o).sum(P(1), P(2));
        else if (w == "sumFV") f(o).sum(P(1), Q(2));
        else if (w == "setsum2") f(o).setsum2(Q(1), Q(2));
        else if (w == "lc2") f(o).lc2(c(1), P(1), c(2), P(2));
        else if (w == "lc3") f(o).lc3(c(1), P(1), c(2), P(2), c(3), P(3));
        else if (w == "lc4") f(o).lc4(c(1), P(1), c(2), P(2), c(3), P(3), c(4), P(4));
        else if (w == "lc5") f(o).lc5(c(1), P(1), c(2), P(2), c(3), P(3), c(4), P(4), c(5), P(5));
        else if (w == "xlc2") f(o).x_lc2(P(1), c(2), P(2), c(3), P(3));
        else if (w == "xlc3") f(o).x_lc3(P(1), c(2), P(2), c(3), P(3), c(4), P(4));
        else if (w == "xlc4") f(o).x_lc4(P(1), c(2), P(2), c(3), P(3), c(4), P(4), c(5), P(5));
        else if (w == "axpy") f(o).a_x_plus_y(c(1), P(1), P(2));
        else if (w == "vassign") v(o) = Q(1);
        else if (w == "vpluseq") v(o) += Q(2);
        else if (w == "minus") { if (s.kind == 'A') a(o).equal_minus(a(ps[0])); else b(o).equal_minus(b(ps[0])); }
        else if (w == "aassign") { if (s.kind == 'A') a(o) = a(ps[0]); else b(o) = b(ps[0]); }
        else abort();
      }
      for (int q = 1; q < NOBJ; q++)
        if ((slot[q].kind == 'F' || slot[q].kind == 'V' || slot[q].kind == 'W') && v(q).get_size() != n) sizes = false;
#ifdef ALIGN_BLOCKED
      // as the compiler is told
      for (int q = 1; q < NOBJ; q++) if (slot[q].kind && !dead[q] && (uintptr_t)adr(q) % (BLOCK_FACTOR)) sizes = false;
#endif
      record(op, val, at, cs, ps, sizes);
    }
    for (int b = 1; b < NUSERS; b++) free(user[b]);
  }
};
template <int n> static void go(const std::vector<std::vector<std::string>> &ops) { World<n> *w = new World<n>(); w->run(ops); delete w; }
int main(int argc, char **argv) {
  probe_open(argv[1]);
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  long seed = atol(argv[2]);
  std::ifstream in(argv[3]);
  std::string line; int k, m;
  while (in >> k >> m) {
    std::getline(in, line);
    std::vector<std::vector<std::string>> ops;
    for (int i = 0; i < m; i++) {
      std::getline(in, line); std::istringstream is(line); std::string t; ops.emplace_back();
      while (is >> t) ops.back().push_back(t);
    }
    g_rng = (uint64_t)seed * 1000003u + (uint64_t)k * 104729u + 77;
    alarm(30);
    jbegin("trace"); ji("k", k); jend();
    switch (rndi(0, 7)) {
    case 0: go<1>(ops); break; case 1: go<2>(ops); break; case 2: go<3>(ops); break; case 3: go<4>(ops); break;
    case 4: go<5>(ops); break; case 5: go<8>(ops); break; case 6: go<5>(ops); break; default: go<17>(ops); break;
    }
    fflush(OUT);
  }
  fclose(OUT);
  return 0;
}
