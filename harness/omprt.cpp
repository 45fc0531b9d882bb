#include "omprt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <ucontext.h>

int rt_threads = 1; double rt_preempt = 0; uint64_t rt_seed = 1; long rt_regions = 0, rt_switches = 0; int rt_keep = 3;
std::vector<Region> rt_log;
static std::map<void *, int> g_seen;
void rt_reset() { rt_log.clear(); g_seen.clear(); rt_regions = rt_switches = 0; }
static uint64_t rnd() { rt_seed += 0x9E3779B97F4A7C15ull; uint64_t z = rt_seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static const int TMAX = 64;
static const size_t STK = 256 * 1024;
struct Co { ucontext_t c; char *stk; int st; const void *wait; int locks; };   // st 0 ready, 1 at a barrier, 2 finished, 3 waiting for a lock
static Co g_co[TMAX];
static ucontext_t g_main;
static bool g_in = false, g_hook = false;
static int g_T = 0, g_cur = -1;
static void (*g_fn)(void *); static void *g_data;
static Region *g_reg = 0;
static std::map<const void *, int> g_locks;     // lock -> owner
static long g_single, g_singles[TMAX];          // work-sharing constructs passed
// dynamic loops
static long g_loops, g_loopi[TMAX];
struct Loop { long next, end, incr, chunk; };
static std::vector<Loop> g_loop;

static void back() { rt_switches++; swapcontext(&g_co[g_cur].c, &g_main); }
static void entry() { g_fn(g_data); g_co[g_cur].st = 2; swapcontext(&g_co[g_cur].c, &g_main); }

extern "C" void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
  if (g_in) { fn(data); return; }
  int T = nt ? (int)nt : rt_threads;
  if (T > TMAX) T = TMAX;
  if (T < 1) T = 1;
  rt_regions++;
  Region r; r.site = (void *)fn; r.T = T; r.total = 0;
  bool keep = g_seen[(void *)fn]++ < rt_keep;
  g_reg = &r; g_fn = fn; g_data = data; g_T = T; g_in = true;
  g_locks.clear(); g_single = 0; g_loops = 0; g_loop.clear();
  for (int i = 0; i < T; i++) {
    Co &c = g_co[i];
    if (!c.stk) c.stk = (char *)malloc(STK);
    getcontext(&c.c);
    c.c.uc_stack.ss_sp = c.stk; c.c.uc_stack.ss_size = STK; c.c.uc_link = &g_main;
    c.st = 0; c.wait = 0; c.locks = 0; g_singles[i] = 0; g_loopi[i] = 0;
    makecontext(&c.c, entry, 0);
  }
  for (;;) {
    int ready[TMAX], k = 0, bar = 0, fin = 0;
    for (int i = 0; i < T; i++) {
      if (g_co[i].st == 3 && !g_locks.count(g_co[i].wait)) g_co[i].st = 0;
      if (g_co[i].st == 0) ready[k++] = i;
      if (g_co[i].st == 1) bar++;
      if (g_co[i].st == 2) fin++;
    }
    if (k == 0) {
      if (fin == T) break;
      if (bar + fin == T && bar) {
        r.acc.push_back(Access{-1, 'b', 0, 0, false});
        for (int i = 0; i < T; i++) if (g_co[i].st == 1) g_co[i].st = 0;
        continue;
      }
      abort();     // deadlock
    }
    g_cur = ready[rnd() % k];
    g_hook = true;
    swapcontext(&g_main, &g_co[g_cur].c);
    g_hook = false;
  }
  g_in = false; g_cur = -1; g_reg = 0;
  if (keep) rt_log.push_back(r);
}
static void access(const void *p, int size, char kind) {
  if (!g_hook) return;
  g_hook = false;
  const char *q = (const char *)p;
  // the stack of the thread is its own
  if (!(q >= g_co[g_cur].stk && q < g_co[g_cur].stk + STK)) {
    g_reg->total++;
    if (rt_preempt > 0 && rnd01() < rt_preempt) back();
    g_reg->acc.push_back(Access{g_cur, kind, q, size, g_co[g_cur].locks > 0});
    if (rt_preempt > 0 && rnd01() < rt_preempt) back();
  }
  g_hook = true;
}
static void lock(const void *l) {
  bool h = g_hook; g_hook = false;
  if (g_in) {
    while (g_locks.count(l)) { g_co[g_cur].st = 3; g_co[g_cur].wait = l; back(); }
    g_locks[l] = g_cur; g_co[g_cur].locks++;
  }
  g_hook = h;
}
static void unlock(const void *l) { bool h = g_hook; g_hook = false; if (g_in) { g_locks.erase(l); g_co[g_cur].locks--; } g_hook = h; }
static void barrier() { if (!g_in) return; bool h = g_hook; g_hook = false; g_co[g_cur].st = 1; back(); g_hook = h; }
static char L_atomic, L_crit;
static bool loop_next(long *s, long *e) {
  Loop &L = g_loop[g_loopi[g_cur] - 1];
  if (L.incr > 0 ? L.next >= L.end : L.next <= L.end) return false;
  long c = L.chunk > 0 ? L.chunk : 1;
  *s = L.next; *e = L.next + c * L.incr;
  if (L.incr > 0 ? *e > L.end : *e < L.end) *e = L.end;
  L.next = *e;
  return true;
}
static bool loop_start(long a, long b, long i, long c, long *s, long *e) {
  bool h = g_hook; g_hook = false;
  if (!g_in) { if (i > 0 ? a >= b : a <= b) return false; *s = a; *e = b; return true; }
  long k = g_loopi[g_cur]++;
  if (k >= (long)g_loop.size()) g_loop.push_back(Loop{a, b, i, c});
  if (rt_preempt > 0 && rnd() % 2) back();
  bool r = loop_next(s, e);
  g_hook = h;
  return r;
}
static bool loop_more(long *s, long *e) {
  if (!g_in) return false;
  bool h = g_hook; g_hook = false;
  if (rnd() % 2) back();
  bool r = loop_next(s, e);
  g_hook = h;
  return r;
}
extern "C" {
int omp_get_thread_num() { return g_in ? g_cur : 0; }
int omp_get_num_threads() { return g_in ? g_T : 1; }
int omp_get_max_threads() { return rt_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return g_in; }
void omp_set_num_threads(int) {}
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { lock(&L_crit); }
void GOMP_critical_end() { unlock(&L_crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&L_atomic); }
void GOMP_atomic_end() { unlock(&L_atomic); }
bool GOMP_single_start() { if (!g_in) return true; bool r = g_singles[g_cur]++ == g_single; if (r) g_single++; return r; }
#define LOOP(X) \
  bool GOMP_loop_##X##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, s, e); } \
  bool GOMP_loop_##X##_next(long *s, long *e) { return loop_more(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(X) \
  bool GOMP_loop_##X##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, s, e); } \
  bool GOMP_loop_##X##_next(long *s, long *e) { return loop_more(s, e); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
// ---- instrumentation -----------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void **) {}
void __tsan_vptr_update(void **, void *) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, 'r'); } \
  void __tsan_write##n(void *p) { access(p, n, 'w'); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, 'r'); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, 'w'); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, 'r'); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, 'w'); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, 'r'); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) access((char *)p + i, 8, 'r'); }
void __tsan_write_range(void *p, unsigned long n) { for (unsigned long i = 0; i < n; i += 8) access((char *)p + i, 8, 'w'); }
#define AT(n, t) \
  t __tsan_atomic##n##_load(const volatile t *p, int) { access((const void *)p, n / 8, 'a'); return *p; } \
  void __tsan_atomic##n##_store(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); *p = v; } \
  t __tsan_atomic##n##_exchange(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); t o = *p; *p = v; return o; } \
  t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); t o = *p; *p = o + v; return o; } \
  t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); t o = *p; *p = o - v; return o; } \
  t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); t o = *p; *p = o | v; return o; } \
  t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int) { access((const void *)p, n / 8, 'a'); t o = *p; *p = o & v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *c, t v, int, int) { access((const void *)p, n / 8, 'a'); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *c, t v, int, int) { access((const void *)p, n / 8, 'a'); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int, int) { access((const void *)p, n / 8, 'a'); t o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
