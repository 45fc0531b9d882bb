// A small OpenMP runtime for the checks: the threads of a parallel region are
// coroutines, which are exchanged at accesses to memory (the code under test is
// compiled with -fsanitize=thread, the calls of which are implemented here).
#ifndef OMPRT_HPP
#define OMPRT_HPP
#include <cstdint>
#include <vector>
struct Access { int tid; char kind; const char *p; int size; bool locked; };   // kind r w a(tomic) b(arrier)
struct Region { void *site; int T; std::vector<Access> acc; long total; };
extern int rt_threads;            // number of threads of the next regions
extern double rt_preempt;         // probability of a switch at an access
extern uint64_t rt_seed;
extern long rt_regions, rt_switches;
extern int rt_keep;               // accesses are kept for so many regions of each site
extern std::vector<Region> rt_log;
void rt_reset();
#endif
