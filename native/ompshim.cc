// A controlled OpenMP runtime: every "thread" of a parallel region is a
// coroutine of the calling thread, and every scheduling decision (which thread
// executes a dynamically scheduled iteration, who executes a single block, who
// enters a critical section first, whether a thread is preempted at a racing
// memory access) is a numbered choice point decided by the driver.  The code
// under test is compiled with -fsanitize=thread and linked with the call-backs
// below instead of the TSan runtime, so conflicting accesses that nothing
// orders (happens-before over fork, join, barrier, critical, atomic) are found
// and can be made preemption points.
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>

namespace {
// an allocator of internal linkage: the containers used here must not share
// their template code with the instrumented objects
template <class T> struct A {
  typedef T value_type;
  A() {}
  template <class U> A(const A<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { free(p); }
  template <class U> bool operator==(const A<U>&) const { return true; }
  template <class U> bool operator!=(const A<U>&) const { return false; }
};
template <class T> using Vec = std::vector<T, A<T> >;
template <class K, class V> using Map = std::map<K, V, std::less<K>, A<std::pair<const K, V> > >;
template <class K> using Set = std::set<K, std::less<K>, A<K> >;
struct H { size_t operator()(uintptr_t x) const { return x * 0x9E3779B97F4A7C15ull >> 16; } };
const int MAXT = 64;
const size_t STACK = 1 << 20;
enum Kind { CHUNK, SINGLE, CRITICAL, PREEMPT, START };
struct Choice { int kind, n, chosen, wrote; };
typedef Vec<uint32_t> VC;

// ---- configuration set by the driver
int cfg_threads = 1, cfg_procs = 8, cfg_mode = 0;
bool track = false;
Map<int, int> plan;                 // choice number -> decision
Vec<Choice> trace;
uintptr_t base_addr = 0;
Set<uintptr_t> racing;              // racing code locations (module offsets)
Set<std::pair<uintptr_t, uintptr_t> > races;
Set<uintptr_t> preempt_at;
long regions = 0, switches = 0, accesses = 0;

struct Loop { long next, end, incr, chunk; int owner; long gen; };
struct Thread {
  ucontext_t ctx;
  char* stack = nullptr;
  bool done = false, blocked = false;
  int id = 0;
  long loopgen = 0, singlegen = 0;        // constructs entered so far
  Loop* loop = nullptr;
  long lo, hi, inc;
  int chunk_choice = -1;                  // trace index of the running chunk
  int yielded = 0;
  bool wait_chunk = false;
  VC clk;
};
struct Team {
  int n = 0, cur = 0, waiting = 0;
  void (*fn)(void*) = nullptr; void* data = nullptr;
  ucontext_t main;
  Vec<Thread> t;
  Map<long, Loop> loops;
  Map<long, int> singles;
  Map<void*, int> locks;             // held by
  Map<void*, VC> lockclk;
  void* copyprivate = nullptr;
};
Team* team = nullptr;
Vec<char*> stacks;

void die(const char* m) { fprintf(stderr, "ompshim: %s\n", m); abort(); }

int choose(int kind, int n, int dflt) {
  int i = trace.size(), c = dflt;
  if (n <= 1) return 0;
  auto p = plan.find(i);
  if (p != plan.end() && p->second < n) c = p->second;
  trace.push_back(Choice{kind, n, c, 0});
  return c;
}

void to(int k) {
  int me = team->cur;
  if (k == me) return;
  team->cur = k; ++switches;
  swapcontext(&team->t[me].ctx, &team->t[k].ctx);
}
// gives way to the next thread that can run
void block() {
  Team& T = *team;
  int me = T.cur;
  for (int d = 1; d <= T.n; ++d) {
    int k = (me + d) % T.n;
    if (!T.t[k].done && !T.t[k].blocked) { to(k); return; }
  }
  if (T.t[me].done) { ++switches; setcontext(&T.main); }
  die("deadlock: every thread waits");
}
void join(VC& a, const VC& b) { for (size_t i = 0; i < a.size(); ++i) a[i] = std::max(a[i], b[i]); }

void barrier() {
  if (!team) return;
  Team& T = *team;
  int me = T.cur;
  if (++T.waiting == T.n) {
    T.waiting = 0;
    VC all(T.n, 0);
    for (auto& t : T.t) join(all, t.clk);
    for (auto& t : T.t) { t.blocked = false; t.clk = all; t.clk[t.id]++; }
    return;
  }
  T.t[me].blocked = true;
  while (T.t[me].blocked) block();
}

void body(int id) {
  Team& T = *team;
  T.fn(T.data);
  T.t[id].done = true;
  // the implicit barrier at the end of the region: a thread that left early
  // still counts as having arrived everywhere it never came to
  bool all = true;
  for (auto& t : T.t) if (!t.done) all = false;
  if (all) setcontext(&T.main);
  block();
}

// ---- races: shadow cells of 8 bytes
struct Cell { uint32_t gen; int32_t wt; uint32_t wc; uint8_t wm; uintptr_t wpc; uint32_t rc[MAXT / 8]; uint8_t rm[MAXT / 8]; uintptr_t rpc[MAXT / 8]; };
std::unordered_map<uintptr_t, Cell, H, std::equal_to<uintptr_t>, A<std::pair<const uintptr_t, Cell> > > shadow;
uint32_t generation = 0;
uintptr_t stacklo[MAXT], stackhi[MAXT];

inline void check(uintptr_t key, uint8_t mask, bool write, uintptr_t pc) {
  Team& T = *team;
  Thread& me = T.t[T.cur];
  Cell& c = shadow[key];
  if (c.gen != generation) { memset(&c, 0, sizeof c); c.gen = generation; c.wt = -1; }
  if (c.wt >= 0 && c.wt != T.cur && (c.wm & mask) && c.wc > me.clk[c.wt]) {
    races.insert(std::make_pair(std::min(pc, c.wpc), std::max(pc, c.wpc)));
    racing.insert(pc); racing.insert(c.wpc);
  }
  if (write) {
    for (int k = 0; k < T.n; ++k)
      if (k != T.cur && (c.rm[k] & mask) && c.rc[k] > me.clk[k]) {
        races.insert(std::make_pair(std::min(pc, c.rpc[k]), std::max(pc, c.rpc[k])));
        racing.insert(pc); racing.insert(c.rpc[k]);
      }
    c.wt = T.cur; c.wc = me.clk[T.cur]; c.wm = mask; c.wpc = pc;
  } else {
    c.rc[T.cur] = me.clk[T.cur]; c.rm[T.cur] = mask; c.rpc[T.cur] = pc;
  }
}

void preempt() {
  Team& T = *team;
  Vec<int> other;
  for (auto& t : T.t) if (t.id != T.cur && !t.done && !t.blocked) other.push_back(t.id);
  int c = choose(PREEMPT, other.size() + 1, 0);
  if (c > 0) to(other[c - 1]);
}

void access(void* a, size_t n, bool write, void* ret) {
  Team& T = *team;
  uintptr_t p = (uintptr_t)a, pc = (uintptr_t)ret - base_addr;
  ++accesses;
  for (int k = 0; k < T.n; ++k)
    if (p >= stacklo[k] && p < stackhi[k]) { if (k == T.cur) return; break; }
  if (write && T.t[T.cur].chunk_choice >= 0) trace[T.t[T.cur].chunk_choice].wrote++;
  if (!preempt_at.empty() && preempt_at.count(pc)) preempt();
  if (!track) return;
  for (uintptr_t q = p & ~7ull; q < p + n; q += 8) {
    uint8_t mask = 0xff;
    if (q < p) mask &= 0xff << (p - q);
    if (q + 8 > p + n) mask &= 0xff >> (q + 8 - p - n);
    check(q >> 3, mask, write, pc);
  }
}
inline bool on() { return team && team->n > 1; }

// ---- loops
bool next_chunk(long* lo, long* hi) {
  Team& T = *team;
  Thread& me = T.t[T.cur];
  Loop& L = *me.loop;
  me.chunk_choice = -1;
  for (;;) {
    bool more = L.incr > 0 ? L.next < L.end : L.next > L.end;
    if (!more) return false;
    if (L.owner < 0) {
      // who executes the next chunk?  (among the threads that can still come here)
      long x = L.next / (L.incr ? L.incr : 1);
      int d = 0;
      switch (cfg_mode) {
        case 0: d = 0; break;
        case 1: d = (int)(((x % T.n) + T.n) % T.n); break;
        case 2: d = T.n - 1; break;
        case 3: d = (int)((((uint64_t)x * 2654435761u + 12345u * trace.size()) >> 7) % T.n); break;
      }
      int before = trace.size();
      L.owner = choose(CHUNK, T.n, d);
      L.gen = (int)trace.size() > before ? before : -1;
    }
    int o = L.owner;
    if (o == me.id || T.t[o].done || T.t[o].blocked || (T.t[o].loop != &L && T.t[o].loopgen >= me.loopgen)) {
      me.chunk_choice = L.gen;
      L.owner = -1;
      *lo = L.next;
      long h = L.next + L.incr * L.chunk;
      if (L.incr > 0 ? h > L.end : h < L.end) h = L.end;
      *hi = h; L.next = h;
      return true;
    }
    to(o);
  }
}
Loop* enter_loop(long start, long end, long incr, long chunk) {
  Team& T = *team;
  Thread& me = T.t[T.cur];
  long g = ++me.loopgen;
  auto it = T.loops.find(g);
  if (it == T.loops.end())
    it = T.loops.insert(std::make_pair(g, Loop{start, end, incr, chunk > 0 ? chunk : 1, -1, -1})).first;
  me.loop = &it->second;
  return me.loop;
}
Vec<void*> graveyard;
Team solo;
Team* need() {
  if (team) return team;
  // an orphaned construct outside a region: a team of one
  solo = Team();
  solo.n = 1; solo.t.resize(1); solo.t[0].clk.assign(1, 1);
  return team = &solo;
}
bool static_next(long* lo, long* hi) {
  Thread& me = team->t[team->cur];
  if (me.lo == me.hi) return false;
  *lo = me.lo; *hi = me.hi; me.lo = me.hi;
  return true;
}
bool static_start(long start, long end, long incr, long chunk, long* lo, long* hi) {
  Thread& me = team->t[team->cur];
  ++me.loopgen; me.loop = nullptr;
  long n = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
  if (n < 0) n = 0;
  long q = n / team->n, r = n % team->n, i0 = me.id * q + std::min<long>(me.id, r);
  long c = q + (me.id < r);
  me.lo = start + i0 * incr; me.hi = start + (i0 + c) * incr;
  return static_next(lo, hi);
}
bool dyn_start(long s, long e, long i, long c, long* lo, long* hi) {
  need(); enter_loop(s, e, i, c); return next_chunk(lo, hi);
}
void loop_end(bool wait) {
  if (!team) return;
  Thread& me = team->t[team->cur];
  me.loop = nullptr; me.chunk_choice = -1;
  if (wait) barrier();
}
void run_team(void (*fn)(void*), void* data, unsigned nt) {
  if (team && team != &solo) {   // nested: serialised
    fn(data); return;
  }
  int n = nt ? (int)nt : cfg_threads;
  if (n > MAXT / 8 && track) track = false;
  if (n > MAXT) n = MAXT;
  Team T;
  T.n = n; T.fn = fn; T.data = data; T.t.resize(n);
  ++generation; ++regions;
  if (shadow.size() > 200000) shadow.clear();
  while ((int)stacks.size() < n) {
    void* m = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) die("no stack");
    stacks.push_back((char*)m);
  }
  for (int k = 0; k < n; ++k) {
    Thread& t = T.t[k];
    t.id = k; t.clk.assign(n, 0); t.clk[k] = 1;
    t.stack = stacks[k];
    stacklo[k] = (uintptr_t)t.stack; stackhi[k] = stacklo[k] + STACK;
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = STACK; t.ctx.uc_link = nullptr;
    makecontext(&t.ctx, (void (*)())body, 1, k);
  }
  team = &T;
  T.cur = n > 1 && cfg_mode == 2 ? n - 1 : 0;
  swapcontext(&T.main, &T.t[T.cur].ctx);
  team = nullptr;
  for (void* p : graveyard) free(p);
  graveyard.clear();
}

void lock(void* name) {
  if (!team) return;
  Team& T = *team;
  Thread& me = T.t[T.cur];
  int saved = me.chunk_choice;
  if (T.n > 1) {
    Vec<int> other;
    for (auto& t : T.t) if (t.id != T.cur && !t.done && !t.blocked) other.push_back(t.id);
    int c = choose(CRITICAL, other.size() + 1, 0);
    if (c > 0) to(other[c - 1]);
    for (;;) {
      auto it = T.locks.find(name);
      if (it == T.locks.end() || it->second < 0) break;
      if (it->second == T.cur) die("deadlock: a thread enters a critical section it is in");
      to(it->second);
    }
    T.locks[name] = T.cur;
    auto& c2 = T.lockclk[name];
    if (c2.empty()) c2.assign(T.n, 0);
    join(T.t[T.cur].clk, c2);
  }
  T.t[T.cur].chunk_choice = saved;
}
void unlock(void* name) {
  if (!team || team->n < 2) return;
  Team& T = *team;
  T.locks[name] = -1;
  T.lockclk[name] = T.t[T.cur].clk;
  T.t[T.cur].clk[T.cur]++;
}
void sync_on(void* a) {   // acquire and release: an atomic operation
  if (!on()) return;
  Team& T = *team;
  auto& c = T.lockclk[(char*)a];
  if (c.empty()) c.assign(T.n, 0);
  join(T.t[T.cur].clk, c);
  c = T.t[T.cur].clk;
  T.t[T.cur].clk[T.cur]++;
}
char unnamed, atomic_lock;
int single() {
  Team& T = *team;
  Thread& me = T.t[T.cur];
  long g = ++me.singlegen;
  auto it = T.singles.find(g);
  if (it == T.singles.end()) {
    int d = cfg_mode == 0 ? 0 : cfg_mode == 1 ? (int)(g % T.n) : cfg_mode == 2 ? T.n - 1 : (int)((g * 7 + trace.size()) % T.n);
    it = T.singles.insert(std::make_pair(g, choose(SINGLE, T.n, d))).first;
  }
  return it->second == me.id;
}
}  // namespace

extern "C" {
// ---- control
void omps_config(int threads, int procs, int mode, int tracking) {
  cfg_threads = threads; cfg_procs = procs; cfg_mode = mode; track = tracking;
  if (!base_addr) {
    Dl_info i;
    if (dladdr((void*)omps_config, &i)) base_addr = (uintptr_t)i.dli_fbase;
  }
}
void omps_start() { trace.clear(); plan.clear(); regions = switches = accesses = 0; }
void omps_plan(int at, int what) { plan[at] = what; }
int omps_trace(int* out, int max) {
  int n = trace.size();
  for (int i = 0; i < n && i < max; ++i) memcpy(out + 4 * i, &trace[i], sizeof(Choice));
  return n;
}
void omps_races_clear() { races.clear(); racing.clear(); }
int omps_races(uint64_t* out, int max) {
  int k = 0;
  for (auto& r : races) { if (k >= max) break; out[2 * k] = r.first; out[2 * k + 1] = r.second; ++k; }
  return races.size();
}
void omps_preempt_clear() { preempt_at.clear(); }
void omps_preempt(uint64_t pc) { preempt_at.insert(pc); }
long omps_stat(int i) { return i == 0 ? regions : i == 1 ? switches : accesses; }

// ---- the runtime
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { run_team(fn, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() { need(); bool r = single(); if (team == &solo) team = nullptr; return r; }
void* GOMP_single_copy_start() {
  if (single()) return nullptr;
  barrier();
  return team ? team->copyprivate : nullptr;
}
void GOMP_single_copy_end(void* d) { if (team) team->copyprivate = d; barrier(); }
void GOMP_critical_start() { lock(&unnamed); }
void GOMP_critical_end() { unlock(&unnamed); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_lock); }
void GOMP_atomic_end() { unlock(&atomic_lock); }

#define DYN(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* lo, long* hi) { return dyn_start(s, e, i, c, lo, hi); } \
  bool GOMP_loop_##name##_next(long* lo, long* hi) { return next_chunk(lo, hi); } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* lo, unsigned long long* hi) { \
    (void)up; return dyn_start(s, e, i, c, (long*)lo, (long*)hi); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* lo, unsigned long long* hi) { return next_chunk((long*)lo, (long*)hi); } \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    (void)s; (void)e; (void)i; (void)c; (void)fn; (void)d; (void)n; pending_loop(fn, d, n, s, e, i, c); }
struct PL { void (*fn)(void*); void* d; long s, e, i, c; };
static void pl_body(void* v) { PL* p = (PL*)v; enter_loop(p->s, p->e, p->i, p->c); p->fn(p->d); }
static void pending_loop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
  PL p = {fn, d, s, e, i, c};
  run_team(pl_body, &p, n);
}
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long* lo, long* hi) { return dyn_start(s, e, i, 1, lo, hi); }
bool GOMP_loop_runtime_next(long* lo, long* hi) { return next_chunk(lo, hi); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* lo, long* hi) { return dyn_start(s, e, i, 1, lo, hi); }
bool GOMP_loop_nonmonotonic_runtime_next(long* lo, long* hi) { return next_chunk(lo, hi); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* lo, long* hi) { return dyn_start(s, e, i, 1, lo, hi); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* lo, long* hi) { return next_chunk(lo, hi); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long* lo, long* hi) { need(); return c ? dyn_start(s, e, i, c, lo, hi) : static_start(s, e, i, c, lo, hi); }
bool GOMP_loop_static_next(long* lo, long* hi) { return team->t[team->cur].loop ? next_chunk(lo, hi) : static_next(lo, hi); }
void GOMP_loop_end() { loop_end(true); if (team == &solo) team = nullptr; }
void GOMP_loop_end_nowait() { loop_end(false); if (team == &solo) team = nullptr; }
unsigned GOMP_sections_start(unsigned n) {
  long lo, hi;
  need();
  enter_loop(1, (long)n + 1, 1, 1);
  return next_chunk(&lo, &hi) ? (unsigned)lo : 0;
}
unsigned GOMP_sections_next() { long lo, hi; return next_chunk(&lo, &hi) ? (unsigned)lo : 0; }
void GOMP_sections_end() { loop_end(true); if (team == &solo) team = nullptr; }
void GOMP_sections_end_nowait() { loop_end(false); if (team == &solo) team = nullptr; }

int omp_get_max_threads() { return cfg_threads; }
int omp_get_num_procs() { return cfg_procs; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return team ? team->cur : 0; }
void omp_set_num_threads(int n) { if (n > 0) cfg_threads = n; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_thread_limit() { return MAXT; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_level() { return team ? 1 : 0; }
double omp_get_wtime() { return 0; }
void omp_init_lock(void* l) { (void)l; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }

// ---- instrumentation call-backs
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { if (on()) access(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { if (on()) access(p, 8, false, __builtin_return_address(0)); }
#define RW(n) \
  void __tsan_read##n(void* p) { if (on()) access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { if (on()) access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { if (on()) access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { if (on()) access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { if (on()) access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { if (on()) access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_read##n(void* p) { if (on()) access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_write##n(void* p) { if (on()) access(p, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { if (on() && n > 0) access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, long n) { if (on() && n > 0) access(p, n, true, __builtin_return_address(0)); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { sync_on((void*)a); return *a; } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { sync_on((void*)a); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { sync_on((void*)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sync_on((void*)a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sync_on((void*)a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sync_on((void*)a); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- library calls the compiler does not instrument
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (on() && n) { access((void*)s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); }
  return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (on() && n) { access((void*)s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); }
  return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (on() && n) access(d, n, true, __builtin_return_address(0));
  return memset(d, c, n);
}
// storage freed inside a region is overwritten and kept until the region ends:
// a thread still using it is noticed, and no two threads get the same address
#define POISON(name, args, call) \
  void __wrap_##name args { if (p && on()) { memset(p, 0xdb, malloc_usable_size(p)); graveyard.push_back(p); } else call; }
POISON(_ZdlPv, (void* p), operator delete(p))
POISON(_ZdaPv, (void* p), operator delete[](p))
POISON(_ZdlPvm, (void* p, size_t), operator delete(p))
POISON(_ZdaPvm, (void* p, size_t), operator delete[](p))
POISON(free, (void* p), free(p))
}
