// A replacement of the OpenMP runtime (the subset g++ may call for this code), so that
//  * ThreadSanitizer sees all synchronisation (it is compiled with the same sanitizer), and
//  * the order and timing of the threads can be varied at random (SHIM_SEED, SHIM_THREADS),
//  * the schedule that occurred is recorded (SHIM_TRACE: one line per parallel region).
// Work shares use relaxed atomics, so that handing out iterations does not order the threads
// in the sanitizer's view any more than OpenMP promises.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <vector>
#include <string>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <stdint.h>

namespace {

struct WorkShare {
  std::atomic<int> state;   // 0 free, 1 being set up, 2 ready
  std::atomic<long> next;
  std::atomic<int> single;
  long start, end, incr, chunk;
  bool guided;
  int n;
};

const int NWS = 256;

struct Team {
  int n;
  std::mutex m;
  std::condition_variable cv;
  int waiting = 0;
  long generation = 0;
  WorkShare ws[NWS];
  std::mutex wsm;
  std::atomic<long> nev;
  std::atomic<int> ev[4096];
  Team(int k) : n(k), nev(0) { for (int i = 0; i < NWS; i++) { ws[i].state.store(0); ws[i].single.store(0); } }
};

struct Self {
  Team* team = nullptr;
  int num = 0;
  int level = 0;
  int wsid = -1;
  uint64_t rng = 88172645463325252ull;
  long static_trip = 0;
};

thread_local Self self;
std::atomic<int> default_threads(0);
std::atomic<int> dyn(0);
std::atomic<long> regions(0);
std::mutex crit, atom, namem, tracem;
std::vector<std::mutex*> locks;
std::vector<std::recursive_mutex*> nlocks;

int seed() { static int s = [] { const char* e = getenv("SHIM_SEED"); return e ? atoi(e) : 0; }(); return s; }
const char* tracefile() { static const char* t = getenv("SHIM_TRACE"); return t; }

int max_threads() {
  int n = default_threads.load(std::memory_order_relaxed);
  if (n > 0) return n;
  const char* e = getenv("SHIM_THREADS");
  if (!e) e = getenv("OMP_NUM_THREADS");
  n = e ? atoi(e) : 4;
  return n > 0 ? n : 1;
}

uint32_t rnd() { uint64_t& x = self.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 16); }

void delay(int weight) {
  if (!seed()) return;
  uint32_t r = rnd() % 16;
  if (r < 5) return;
  if (r < 9) { sched_yield(); return; }
  if (r < 13) { for (volatile uint32_t k = rnd() % 20000; k > 0; k--) {} return; }
  usleep(rnd() % (weight * 300 + 1));
}

void event(int code) {
  Team* t = self.team;
  if (!t || !tracefile()) return;
  long k = t->nev.fetch_add(1, std::memory_order_relaxed);
  if (k < 4096) t->ev[k].store(code * 1000 + self.num, std::memory_order_relaxed);
}

void body(Team* t, int num, int level, void (*fn)(void*), void* data, uint64_t s) {
  Self old = self;
  self.team = t; self.num = num; self.level = level; self.wsid = -1; self.static_trip = 0;
  self.rng = s * 6364136223846793005ull + 1442695040888963407ull * (num + 1);
  for (int k = 0; k < 5; k++) rnd();
  delay(3);
  event(1);
  fn(data);
  event(2);
  delay(1);
  self = old;
}

void region(Team* t, void (*fn)(void*), void* data) {
  long r = regions.fetch_add(1, std::memory_order_relaxed);
  uint64_t s = (uint64_t)seed() * 1000003ull + r + 1;
  std::vector<std::thread> ts;
  int level = self.level + 1;
  for (int k = 1; k < t->n; k++) ts.push_back(std::thread(body, t, k, level, fn, data, s));
  body(t, 0, level, fn, data, s);
  for (size_t k = 0; k < ts.size(); k++) ts[k].join();
  if (tracefile()) {
    std::lock_guard<std::mutex> g(tracem);
    FILE* f = fopen(tracefile(), "a");
    if (f) {
      fprintf(f, "%d", t->n);
      long n = t->nev.load(); if (n > 4096) n = 4096;
      for (long k = 0; k < n; k++) { int e = t->ev[k].load(); fprintf(f, " %c%d", "?secwb"[e / 1000], e % 1000); }
      fprintf(f, "\n");
      fclose(f);
    }
  }
}

int team_size(unsigned n) {
  if (self.level >= 1) return 1;
  int k = n ? (int)n : max_threads();
  if (dyn.load() && seed()) k = 1 + (seed() * 7 + (int)regions.load()) % k;
  return k < 1 ? 1 : k;
}

void setup(WorkShare& w, int n, long a, long b, long incr, long chunk, bool guided) {
  w.start = a; w.end = b; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; w.guided = guided; w.n = n;
  w.next.store(a, std::memory_order_relaxed);
  w.state.store(2, std::memory_order_release);
}

bool grab(long* is, long* ie) {
  if (self.wsid < 0) return false;
  WorkShare& w = self.team->ws[self.wsid % NWS];
  delay(1);
  long c = w.chunk * w.incr;
  long a = w.next.fetch_add(c, std::memory_order_relaxed);
  if (w.incr > 0 ? a >= w.end : a <= w.end) return false;
  long b = a + c;
  if (w.incr > 0 ? b > w.end : b < w.end) b = w.end;
  *is = a; *ie = b;
  event(4);
  return true;
}

Team* team_or_single() {
  // work-sharing constructs outside a parallel region
  if (!self.team) { static thread_local Team t1(1); self.team = &t1; self.num = 0; }
  return self.team;
}

bool loop_start(long a, long b, long incr, long chunk, bool guided, long* is, long* ie) {
  Team* t = team_or_single();
  int id = ++self.wsid;
  WorkShare& w = t->ws[id % NWS];
  {
    if (w.state.load(std::memory_order_acquire) != 2) {
      std::lock_guard<std::mutex> g(t->wsm);
      if (w.state.load(std::memory_order_relaxed) != 2) setup(w, t->n, a, b, incr, chunk, guided);
    }
  }
  if (t->n == 1 && w.next.load() != a) setup(w, 1, a, b, incr, chunk, guided);
  return grab(is, ie);
}

struct StaticState { long a, b, incr, chunk, pos; };
thread_local StaticState sst;

bool static_next(long* is, long* ie) {
  StaticState& s = sst;
  int n = self.team ? self.team->n : 1;
  long total = s.incr > 0 ? (s.b - s.a + s.incr - 1) / s.incr : (s.b - s.a + s.incr + 1) / s.incr;
  if (total <= 0) return false;
  long lo, hi;
  if (s.chunk <= 0) {
    if (s.pos > 0) return false;
    long q = total / n, r = total % n;
    lo = self.num * q + (self.num < r ? self.num : r);
    hi = lo + q + (self.num < r ? 1 : 0);
  } else {
    lo = (s.pos * n + self.num) * s.chunk;
    hi = lo + s.chunk;
  }
  s.pos++;
  if (hi > total) hi = total;
  if (lo >= hi) return false;
  *is = s.a + lo * s.incr; *ie = s.a + hi * s.incr;
  return true;
}

void barrier() {
  Team* t = self.team;
  if (!t || t->n == 1) return;
  event(5);
  std::unique_lock<std::mutex> g(t->m);
  long gen = t->generation;
  if (++t->waiting == t->n) { t->waiting = 0; t->generation++; t->cv.notify_all(); }
  else while (t->generation == gen) t->cv.wait(g);
}

void run_loop_region(void (*fn)(void*), void* data, unsigned n, long a, long b, long incr, long chunk, bool guided) {
  Team* t = new Team(team_size(n));
  setup(t->ws[0], t->n, a, b, incr, chunk, guided);
  struct Pack { void (*fn)(void*); void* data; } p = {fn, data};
  // every thread starts with work share 0 current
  region(t, [](void* q) { Pack* p = (Pack*)q; self.wsid = 0; p->fn(p->data); }, &p);
  delete t;
}

}  // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  Team* t = new Team(team_size(n));
  region(t, fn, data);
  delete t;
}

#define PLOOP(name, guided) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { run_loop_region(fn, d, n, a, b, i, c, guided); }
PLOOP(dynamic, false)
PLOOP(guided, true)
PLOOP(nonmonotonic_dynamic, false)
PLOOP(nonmonotonic_guided, true)
PLOOP(static, false)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { run_loop_region(fn, d, n, a, b, i, 1, false); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { run_loop_region(fn, d, n, a, b, i, 1, false); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { run_loop_region(fn, d, n, a, b, i, 1, false); }

#define LOOP(name) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* is, long* ie) { return loop_start(a, b, i, c, false, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return grab(is, ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) \
  bool GOMP_loop_##name##_start(long a, long b, long i, long* is, long* ie) { return loop_start(a, b, i, 1, false, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return grab(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_loop_static_start(long a, long b, long i, long c, long* is, long* ie) { team_or_single(); ++self.wsid; sst.a = a; sst.b = b; sst.incr = i; sst.chunk = c; sst.pos = 0; return static_next(is, ie); }
bool GOMP_loop_static_next(long* is, long* ie) { return static_next(is, ie); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}

bool GOMP_single_start() {
  Team* t = team_or_single();
  WorkShare& w = t->ws[++self.wsid % NWS];
  if (t->n == 1) return true;
  int z = 0;
  return w.single.compare_exchange_strong(z, 1, std::memory_order_relaxed);
}

unsigned GOMP_sections_start(unsigned count) {
  long a, b;
  return loop_start(1, (long)count + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next() { long a, b; return grab(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { run_loop_region(fn, d, n, 1, (long)count + 1, 1, 1, false); }

void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { delay(2); crit.lock(); event(3); }
void GOMP_critical_end() { crit.unlock(); delay(1); }
void GOMP_critical_name_start(void** p) {
  delay(2);
  std::mutex* m;
  { std::lock_guard<std::mutex> g(namem); if (!*p) *p = new std::mutex; m = (std::mutex*)*p; }
  m->lock();
  event(3);
}
void GOMP_critical_name_end(void** p) { ((std::mutex*)*p)->unlock(); delay(1); }
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
void GOMP_ordered_start() { crit.lock(); }
void GOMP_ordered_end() { crit.unlock(); }
void GOMP_taskwait() {}
void GOMP_taskyield() { sched_yield(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  // undeferred
  if (cpy) {
    std::vector<char> buf(size + align);
    char* p = (char*)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
    cpy(p, data);
    fn(p);
  } else fn(data);
}

int omp_get_thread_num() { return self.num; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_get_max_threads() { return max_threads(); }
void omp_set_num_threads(int n) { default_threads.store(n > 0 ? n : 1); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self.level > 0 && self.team && self.team->n > 1; }
void omp_set_dynamic(int d) { dyn.store(d); }
int omp_get_dynamic() { return dyn.load(); }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_level() { return self.level; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : self.num; }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
int omp_get_cancellation() { return 0; }
// locks: omp_lock_t may be as small as an int: keep an index in it
static std::mutex* lockp(int* l) { std::lock_guard<std::mutex> g(namem); return locks[*l]; }
void omp_init_lock(int* l) { std::lock_guard<std::mutex> g(namem); locks.push_back(new std::mutex); *l = (int)locks.size() - 1; }
void omp_destroy_lock(int*) {}
void omp_set_lock(int* l) { delay(2); lockp(l)->lock(); event(3); }
void omp_unset_lock(int* l) { lockp(l)->unlock(); delay(1); }
int omp_test_lock(int* l) { return lockp(l)->try_lock(); }
static std::recursive_mutex* nlockp(int* l) { std::lock_guard<std::mutex> g(namem); return nlocks[*l]; }
void omp_init_nest_lock(int* l) { std::lock_guard<std::mutex> g(namem); nlocks.push_back(new std::recursive_mutex); *l = (int)nlocks.size() - 1; }
void omp_destroy_nest_lock(int*) {}
void omp_set_nest_lock(int* l) { nlockp(l)->lock(); }
void omp_unset_nest_lock(int* l) { nlockp(l)->unlock(); }

}  // extern "C"
