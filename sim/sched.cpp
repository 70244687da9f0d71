// Scheduler, simulated time, synchronisation primitives.
#include "sim.h"
#include "result.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <cstdlib>
#include <queue>
#include <unordered_map>
#include <unistd.h>

bool g_on = false;
Thread *g_cur = nullptr;
u64 g_now = 0;
bool g_pcreate_failed = false;
int64_t g_wall_off = 0;
u64 g_k = 0;
u64 g_hash = 1469598103934665603ull;
bool g_verbose = false;
std::vector<Thread *> g_threads;
u64 g_edges_since_seam = 0;

static std::vector<Thread *> g_run; // runnable, started, not current
static std::vector<Thread *> g_unstarted;
static u64 g_ready_seq = 0;
static Rng g_rng(1);
static const Scenario *S = nullptr;
static bool g_random = true;
static std::vector<Dev> g_trace;
static size_t g_trace_i = 0;
static std::vector<Dev> g_rec;
static double p_sync, p_io, p_mem, p_hot, p_cheap, p_stall, p_spur, p_sig;
static double p_hs; static int hot_mod, hs_mod, hs_left;
static u64 g_stall_total = 0;
static u64 g_crash_k = 0;
u64 g_durable = 0; // completed changes of the file system
static u64 g_hot_seed = 0;

struct Event { u64 t, seq; bool external; std::function<void()> fn; };
struct EvCmp { bool operator()(const Event &a, const Event &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Event, std::vector<Event>, EvCmp> g_q;
static u64 g_evseq = 0;
static u64 g_external = 0;
extern "C" char __executable_start;

u64 total_stall_ns() { return g_stall_total; }
u64 wall_ns() { return (u64)((int64_t)g_now + g_wall_off); }

std::string strf(const char *fmt, ...) {
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b;
}
static void mix(u64 v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
void ev(const char *fmt, ...) {
  char b[600]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  mix(g_cur ? g_cur->id + 1 : 0); mix(g_now);
  for (int i = 0; i < n; i += 8) { u64 w = 0; memcpy(&w, b + i, std::min(8, n - i)); mix(w); }
  if (g_verbose) fprintf(stderr, "[%12.6f k=%llu T%d] %s\n", g_now / 1e9, (unsigned long long)g_k, g_cur ? g_cur->id : -1, b);
}

void sched_init(const Scenario &sc) {
  S = &sc;
  g_random = sc.sched_mode == 1;
  u64 seed = sc.sched_seed + 7919ull * g_epoch;
  g_rng = Rng(seed);
  if (g_random) {
    Rng r(seed ^ 0x5eed);
    static const double ps[] = {0, 0.01, 0.05, 0.2, 0.5};
    p_sync = ps[r.below(5)]; p_io = ps[r.below(5)];
    static const double pm[] = {0, 0, 0.0005, 0.005, 0.03};
    p_mem = pm[r.below(5)];
    static const double ph[] = {0, 0.02, 0.15, 0.5};
    p_hot = ph[r.below(4)];
    hot_mod = (int[]){4, 8, 16, 32}[r.below(4)];
    p_cheap = p_io / 30;
    static const double pst[] = {0, 0, 0, 0.0005, 0.005};
    p_stall = pst[r.below(5)];
    p_spur = r.chance(0.3) ? 0.02 : 0;
    p_sig = r.chance(0.4) ? 0.5 : 0;
    g_hot_seed = r.next();
    // threads that are slow at a few places in the program
    static const double phs[] = {0, 0, 0, 0.15, 0.6};
    p_hs = phs[r.below(5)]; hs_mod = (int[]){6, 12, 24}[r.below(3)]; hs_left = 40;
    if (sc.o("nosched")) p_sync = p_io = p_mem = p_hot = p_cheap = p_stall = p_spur = p_sig = p_hs = 0;
  } else {
    if (g_epoch < (int)sc.epoch_devs.size()) g_trace = sc.epoch_devs[g_epoch];
    else if (g_epoch == 0) g_trace = sc.devs;
  }
  g_crash_k = g_epoch < (int)sc.crash.size() ? sc.crash[g_epoch] : 0;
  g_now = 1 * SEC;
  // wall clock: a fixed date plus a scenario-chosen offset
  g_wall_off = (int64_t)(sc.o("walltime", 1700000000) * (int64_t)SEC) + sc.o("wallfrac") * (int64_t)US - (int64_t)g_now;
  Thread *t = new Thread;
  t->id = 0; t->st = T_RUNNABLE; t->why = "run"; t->real = pthread_self();
  sem_init(&t->sem, 0, 0);
  pthread_attr_t at_; void *lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at_); pthread_attr_getstack(&at_, &lo, &sz); pthread_attr_destroy(&at_);
  t->stack_lo = (uintptr_t)lo; t->stack_hi = t->stack_lo + sz;
  g_threads.push_back(t);
  g_cur = t;
}

static void record(u64 k, int v) { g_rec.push_back({k, v}); }
const std::vector<Dev> &recorded_devs() { return g_rec; }

void at(u64 t, std::function<void()> fn, bool external) {
  if (t < g_now) t = g_now;
  g_q.push({t, g_evseq++, external, std::move(fn)});
  if (external) g_external++;
}
void at_owned(u64 t, std::function<void()> fn) { at(t, std::move(fn), false); }

static void run_due() {
  while (!g_q.empty() && g_q.top().t <= g_now) {
    auto fn = std::move(const_cast<Event &>(g_q.top()).fn);
    bool ext = g_q.top().external;
    g_q.pop();
    if (ext) g_external--;
    fn();
  }
}

void wake(Thread *t) {
  if (t->st != T_BLOCKED) return;
  if (t->wq) { auto &v = t->wq->q; v.erase(std::remove(v.begin(), v.end(), t), v.end()); t->wq = nullptr; }
  t->st = T_RUNNABLE; t->timer_gen++; t->ready_seq = ++g_ready_seq; t->why = "run";
  g_run.push_back(t);
}
void wake_all(WaitQ &wq) { while (!wq.q.empty()) wake(wq.q.front()); }

static void *trampoline(void *p) {
  Thread *t = (Thread *)p;
  pthread_attr_t at_; void *lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at_); pthread_attr_getstack(&at_, &lo, &sz); pthread_attr_destroy(&at_);
  t->stack_lo = (uintptr_t)lo; t->stack_hi = t->stack_lo + sz;
  t->ret = t->fn(t->arg);
  extern void thread_exit_sim(void *);
  thread_exit_sim(t->ret);
  return t->ret;
}

static void transfer(Thread *n) {
  Thread *self = g_cur;
  if (n == self) return;
  mix(n->id * 31 + 7);
  g_cur = n;
  if (n->st == T_UNSTARTED) {
    n->st = T_RUNNABLE;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 768 * 1024);
    if (pthread_create(&n->real, &a, trampoline, n)) { result_error("real pthread_create failed"); _exit(3); }
    pthread_attr_destroy(&a);
    pthread_detach(n->real);
  } else sem_post(&n->sem);
  if (self->st == T_DONE) return;
  while (sem_wait(&self->sem)) {}
}

bool any_waiting_pool() {
  for (auto t : g_threads) if (t->st == T_BLOCKED && (!strcmp(t->why, "cond") || !strcmp(t->why, "sem"))) return true;
  return false;
}

static Thread *start_unstarted() { Thread *t = g_unstarted.front(); g_unstarted.erase(g_unstarted.begin()); count("threads_started_late"); return t; }
extern u64 g_settle_ns;

static Thread *pick_next() {
  for (;;) {
    run_due();
    if (!g_run.empty()) {
      int n = (int)g_run.size();
      int v = n > 1 ? choose(n, p_sync) : 0;
      if (v >= n) v = 0;
      Thread *t = g_run[v];
      g_run.erase(g_run.begin() + v);
      return t;
    }
    // nobody can run
    if (!g_unstarted.empty()) {
      if (g_unstarted.front()->eager) return start_unstarted();
      if (!any_waiting_pool()) return start_unstarted();
    }
    oracle_idle_instant();
    if (!g_run.empty()) continue;
    if (g_q.empty() || (g_external == 0 && g_q.top().t > g_last_progress + g_settle_ns)) {
      if (!g_unstarted.empty() && net_pending_unserved()) return start_unstarted();
      phase_idle(); // schedules more work or ends the run
      continue;
    }
    if (g_q.top().t > g_now) g_now = g_q.top().t;
  }
}

static void apply_dev(int v) {
  Thread *self = g_cur;
  if (v >= 3000) return;
  if (v >= 2000) { // spurious wake-up of a condition waiter
    int i = v - 2000, j = 0;
    for (auto t : g_threads) if (t->st == T_BLOCKED && !strcmp(t->why, "cond")) { if (j++ == i) { count("fault.spurious_wakeup"); ev("spurious wake T%d", t->id); wake(t); break; } }
    return;
  }
  if (v >= 1000) { // stall this thread
    u64 d = (10 * US) << (v - 1000);
    g_stall_total += d; count("fault.thread_stall");
    ev("stall %llu us", (unsigned long long)(d / US));
    sleep_for(d, "stall");
    return;
  }
  if (g_run.empty()) return;
  int i = (v - 1) % (int)g_run.size();
  Thread *t = g_run[i];
  g_run.erase(g_run.begin() + i);
  self->ready_seq = ++g_ready_seq;
  g_run.push_back(self);
  count("preemptions");
  transfer(t);
}

void point(PKind kind, uintptr_t site) {
  if (!g_on) return;
  if (g_cur->st != T_RUNNABLE) return;
  g_edges_since_seam = 0;
  static const u64 cost[] = {1 * US, 4 * US, 0, 600};
  g_now += cost[kind];
  run_due();
  u64 k = g_k++;
  if (g_crash_k && (g_crash_k < CRASH_OPS ? k >= g_crash_k : g_durable >= g_crash_k - CRASH_OPS)) finish_run("crash");
  if (k > 6000000ull) { violation("*", "livelock", "more than 6M steps"); finish_run("steplimit"); }
  int v = 0;
  if (!g_random) {
    while (g_trace_i < g_trace.size() && g_trace[g_trace_i].k < k) g_trace_i++;
    if (g_trace_i < g_trace.size() && g_trace[g_trace_i].k == k) v = g_trace[g_trace_i++].v;
  } else {
    double p = kind == P_SYNC ? p_sync : kind == P_IO ? p_io : kind == P_MEM ? p_mem : p_cheap;
    if (p_hot > 0 && site) {
      u64 h = (site - (uintptr_t)&__executable_start) * 0x9E3779B97F4A7C15ull ^ g_hot_seed;
      h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29;
      if (h % hot_mod == 0) p = std::max(p, kind == P_CHEAP ? p_hot / 4 : p_hot);
    }
    bool slow = false;
    if (p_hs > 0 && hs_left > 0 && site && (kind == P_SYNC || kind == P_IO)) {
      u64 h = (site - (uintptr_t)&__executable_start) * 0x94D049BB133111EBull ^ g_hot_seed;
      h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
      slow = h % hs_mod == 0 && g_rng.chance(p_hs);
    }
    if (slow) { hs_left--; v = 1002 + (int)g_rng.below(9); }
    else if (p > 0 && !g_run.empty() && g_rng.chance(p)) v = 1 + (int)g_rng.below(g_run.size());
    else if (p_stall > 0 && kind != P_CHEAP && kind != P_MEM && g_rng.chance(p_stall)) v = 1000 + (int)g_rng.below(13);
    else if (p_stall > 0 && kind == P_MEM && g_rng.chance(p_stall / 50)) v = 1000 + (int)g_rng.below(13);
    else if (p_spur > 0 && kind == P_SYNC && g_rng.chance(p_spur)) v = 2000 + (int)g_rng.below(4);
  }
  if (v) { record(k, v); apply_dev(v); g_cur->pts = 0; return; }
  // fairness: a thread that spins without ever blocking gives way now and then
  if (++g_cur->pts >= 30000) { g_cur->pts = 0; count("forced_yield"); sleep_for(20 * US, "work"); }
}

int choose(int n, double p) {
  u64 k = g_k++;
  int v = 0;
  if (!g_random) {
    while (g_trace_i < g_trace.size() && g_trace[g_trace_i].k < k) g_trace_i++;
    if (g_trace_i < g_trace.size() && g_trace[g_trace_i].k == k) v = g_trace[g_trace_i++].v;
    if (v < 0 || v >= n) v = 0;
  } else if (p > 0 && n > 1 && g_rng.chance(p)) v = (int)g_rng.below(n);
  if (v) record(k, v);
  return v;
}

static void switch_out() { g_cur->pts = 0; Thread *n = pick_next(); transfer(n); }

bool block_on(WaitQ &wq, const char *why, u64 deadline) {
  Thread *t = g_cur;
  t->st = T_BLOCKED; t->why = why; t->wq = &wq; t->timed_out = false;
  u64 gen = ++t->timer_gen;
  wq.q.push_back(t);
  if (deadline) at_owned(deadline, [t, gen] { if (t->st == T_BLOCKED && t->timer_gen == gen) { t->timed_out = true; wake(t); } });
  switch_out();
  return !t->timed_out;
}

void sleep_for(u64 ns, const char *why) {
  Thread *t = g_cur;
  t->st = T_BLOCKED; t->why = why; t->wq = nullptr;
  u64 gen = ++t->timer_gen;
  // short stalls and sleeps count as pending work; long sleeps do not keep a run alive by themselves
  at(g_now + ns, [t, gen] { if (t->st == T_BLOCKED && t->timer_gen == gen) wake(t); }, !strcmp(why, "stall") || !strcmp(why, "work"));
  switch_out();
}

// ---------- threads ----------
static int new_thread(void *(*fn)(void *), void *arg) {
  Thread *t = new Thread;
  t->id = (int)g_threads.size(); t->fn = fn; t->arg = arg;
  sem_init(&t->sem, 0, 0);
  int same = 0;
  for (auto o : g_threads) if (o->fn == fn) same++;
  t->eager = same < S->o("eager", 4);
  g_threads.push_back(t);
  t->st = T_UNSTARTED;
  if (t->eager) { t->ready_seq = ++g_ready_seq; g_run.push_back(t); }
  else g_unstarted.push_back(t);
  return t->id;
}
int sim_spawn(void *(*fn)(void *), void *arg) { return new_thread(fn, arg); }
static u64 tid_value(int id) { return 0x7f5a10000000ull + (u64)id * 0x801000ull; }
static Thread *thread_of(pthread_t p) { u64 d = (u64)p - 0x7f5a10000000ull; if (d % 0x801000ull) return nullptr; d /= 0x801000ull; return d < g_threads.size() ? g_threads[d] : nullptr; }

void thread_exit_sim(void *ret) {
  Thread *t = g_cur;
  t->ret = ret; t->st = T_DONE; t->why = "done";
  ev("thread exit");
  wake_all(t->join_q);
  Thread *n = pick_next();
  transfer(n);
}

#define SITE ((uintptr_t)__builtin_return_address(0))
extern "C" {
static int g_pcreate = 0;
int sim_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  (void)attr;
  point(P_SYNC, SITE);
  g_pcreate++;
  int64_t lim = S->o("maxthreads", -1);
  if (lim >= 0 && g_pcreate > lim) { count("fault.pthread_create_EAGAIN"); g_pcreate_failed = true; return EAGAIN; }
  for (auto &f : S->faults) if (f.kind == "pthread" && f.off == g_pcreate) { count("fault.pthread_create"); g_pcreate_failed = true; return f.err ? f.err : EAGAIN; }
  int id = new_thread(fn, arg);
  *out = (pthread_t)tid_value(id);
  return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)tid_value(g_cur ? g_cur->id : 0); }
int sim_pthread_join(pthread_t p, void **ret) {
  point(P_SYNC, SITE);
  Thread *t = thread_of(p); if (!t) return ESRCH;
  while (t->st != T_DONE) block_on(t->join_q, "join", 0);
  if (ret) *ret = t->ret;
  return 0;
}
int sim_pthread_detach(pthread_t p) { Thread *t = thread_of(p); if (!t) return ESRCH; t->detached = true; return 0; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { thread_exit_sim(r); for (;;) pause(); }
int sim_pthread_cancel(pthread_t) { return 0; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_pthread_sigmask(int, const sigset_t *s, void *) { if (s && sigismember(s, SIGPIPE)) g_sigpipe_ignored = true; return 0; }
int sim_pthread_kill(pthread_t, int) { return 0; }
int sim_sched_yield(void) { point(P_SYNC, SITE); return 0; }
}

// mutexes
struct Mx { Thread *owner = nullptr; int n = 0; bool rec = false; bool err = false; WaitQ q; int readers = 0; };
static std::unordered_map<void *, Mx> g_mx;
struct Cv { WaitQ q; bool mono = false; };
static std::unordered_map<void *, Cv> g_cv;
struct Sm { long v = 0; WaitQ q; };
static std::unordered_map<void *, Sm> g_sm;
static std::unordered_map<void *, int> g_once;

static int mx_lock(void *m) {
  Mx &x = g_mx[m];
  if (x.owner == g_cur && x.rec) { x.n++; return 0; }
  while (x.owner || x.readers) { count("mutex_contended"); block_on(x.q, "mutex", 0); }
  x.owner = g_cur; x.n = 1;
  return 0;
}
static int mx_unlock(void *m) {
  Mx &x = g_mx[m];
  if (x.owner != g_cur) { // glibc: a normal mutex is released whoever holds it
    ev("unlock of a mutex not held");
    if (x.rec || x.err) return EPERM;
    if (x.owner) { x.owner = nullptr; x.n = 0; wake_all(x.q); }
    return 0;
  }
  if (--x.n == 0) { x.owner = nullptr; wake_all(x.q); }
  return 0;
}
// used for stdio FILE locks
void filelock(void *f) { Mx &x = g_mx[f]; x.rec = true; mx_lock(f); }
void fileunlock(void *f) { mx_unlock(f); }

extern "C" {
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { return pthread_mutexattr_init(a); }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { return pthread_mutexattr_settype(a, t); }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return pthread_mutexattr_destroy(a); }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  Mx x; int t = 0; if (a) { pthread_mutexattr_gettype(a, &t); x.rec = t == PTHREAD_MUTEX_RECURSIVE; x.err = t == PTHREAD_MUTEX_ERRORCHECK; }
  g_mx[m] = x; return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { g_mx.erase(m); return 0; }
// statically initialised mutexes carry their kind
static void mx_kind(pthread_mutex_t *m) { if (!g_mx.count(m) && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) g_mx[m].rec = true; else if (!g_mx.count(m) && (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) g_mx[m].err = true; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { point(P_SYNC, SITE); mx_kind(m); return mx_lock(m); }
static u64 dl_real(const struct timespec *ts) { int64_t d = (int64_t)ts->tv_sec * (int64_t)SEC + ts->tv_nsec - g_wall_off; return d <= (int64_t)g_now ? g_now + 1 : (u64)d; }
static u64 dl_mono(const struct timespec *ts) { int64_t d = (int64_t)ts->tv_sec * (int64_t)SEC + ts->tv_nsec - (mono_ns() - (int64_t)g_now); return d <= (int64_t)g_now ? g_now + 1 : (u64)d; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  point(P_SYNC, SITE); mx_kind(m);
  Mx &x = g_mx[m]; u64 dl = dl_real(ts);
  if (x.owner == g_cur && x.rec) { x.n++; return 0; }
  while (x.owner || x.readers) { count("mutex_contended"); if (!block_on(x.q, "mutex", dl)) return ETIMEDOUT; }
  x.owner = g_cur; x.n = 1;
  return 0;
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { point(P_SYNC, SITE); Mx &x = g_mx[m]; if (x.owner || x.readers) return EBUSY; x.owner = g_cur; x.n = 1; return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { point(P_SYNC, SITE); Mx &x = g_mx[m]; if (x.owner) return EBUSY; x.readers++; return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  point(P_SYNC, SITE); mx_kind(m); Mx &x = g_mx[m];
  if (x.owner == g_cur && x.rec) { x.n++; return 0; }
  if (x.owner || x.readers) return EBUSY;
  x.owner = g_cur; x.n = 1; return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { int r = mx_unlock(m); point(P_SYNC, SITE); return r; }
int sim_pthread_rwlock_init(pthread_rwlock_t *m, const void *) { g_mx[m] = Mx(); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { g_mx.erase(m); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { point(P_SYNC, SITE); return mx_lock(m); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { point(P_SYNC, SITE); Mx &x = g_mx[m]; while (x.owner) block_on(x.q, "mutex", 0); x.readers++; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  Mx &x = g_mx[m];
  if (x.owner == g_cur) { x.owner = nullptr; x.n = 0; wake_all(x.q); } else if (x.readers && --x.readers == 0) wake_all(x.q);
  point(P_SYNC, SITE); return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t *m, int) { g_mx[(void *)m] = Mx(); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { point(P_SYNC, SITE); return mx_lock((void *)m); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { int r = mx_unlock((void *)m); point(P_SYNC, SITE); return r; }
int sim_pthread_spin_destroy(pthread_spinlock_t *m) { g_mx.erase((void *)m); return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { Cv v; clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); v.mono = k == CLOCK_MONOTONIC; g_cv[c] = v; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { g_cv.erase(c); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
  Cv &v = g_cv[c];
  if (g_cur->conn) { g_cur->conn->t_worker_idle = g_now; g_cur->conn = nullptr; }
  g_cur->idle_epochs++;
  mx_unlock(m);
  bool ok = block_on(v.q, "cond", deadline);
  mx_lock(m);
  return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { point(P_SYNC, SITE); return cond_wait(c, m, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  point(P_SYNC, SITE);
  return cond_wait(c, m, g_cv[c].mono ? dl_mono(ts) : dl_real(ts));
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  point(P_SYNC, SITE);
  return cond_wait(c, m, k == CLOCK_MONOTONIC ? dl_mono(ts) : dl_real(ts));
}
int sim_pthread_cond_signal(pthread_cond_t *c) {
  point(P_SYNC, SITE);
  Cv &v = g_cv[c];
  if (!v.q.q.empty()) { int n = (int)v.q.q.size(); int i = n > 1 ? choose(n, p_sig) : 0; Thread *t = v.q.q[i]; ev("signal T%d", t->id); wake(t); }
  point(P_SYNC, SITE);
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) { point(P_SYNC, SITE); wake_all(g_cv[c].q); point(P_SYNC, SITE); return 0; }
int sim_sem_init(sem_t *s, int, unsigned v) { g_sm[s].v = v; return 0; }
int sim_sem_destroy(sem_t *s) { g_sm.erase(s); return 0; }
int sim_sem_post(sem_t *s) { point(P_SYNC, SITE); Sm &x = g_sm[s]; x.v++; if (!x.q.q.empty()) wake(x.q.q.front()); return 0; }
int sim_sem_wait(sem_t *s) {
  point(P_SYNC, SITE); Sm &x = g_sm[s];
  while (x.v <= 0) {
    if (g_cur->conn) { g_cur->conn->t_worker_idle = g_now; g_cur->conn = nullptr; }
    block_on(x.q, "sem", 0);
  }
  x.v--; return 0;
}
int sim_sem_timedwait(sem_t *s, const struct timespec *ts) {
  point(P_SYNC, SITE); Sm &x = g_sm[s]; u64 dl = dl_real(ts);
  while (x.v <= 0) {
    if (g_cur->conn) { g_cur->conn->t_worker_idle = g_now; g_cur->conn = nullptr; }
    if (!block_on(x.q, "sem", dl)) { errno = ETIMEDOUT; return -1; }
  }
  x.v--; return 0;
}
int sim_sem_getvalue(sem_t *s, int *v) { *v = (int)g_sm[s].v; return 0; }
int sim_sem_trywait(sem_t *s) { Sm &x = g_sm[s]; if (x.v <= 0) { errno = EAGAIN; return -1; } x.v--; return 0; }
int sim_pthread_once(pthread_once_t *o, void (*fn)(void)) {
  point(P_SYNC, SITE);
  if (!g_once[o]) { g_once[o] = 1; fn(); g_once[o] = 2; }
  while (g_once[o] == 1) yield_now();
  return 0;
}
}

// ---------- memory access instrumentation ----------
struct Gran { uintptr_t key; uint32_t tid; uint32_t shared; };
static const size_t GN = 1 << 18;
static Gran *g_gran;
static size_t g_gran_used = 0;
static void gran_init() { if (!g_gran) g_gran = (Gran *)calloc(GN, sizeof(Gran)); }
static inline Gran *gran_find(uintptr_t key, bool insert) {
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 46;
  for (;;) {
    Gran *g = &g_gran[h & (GN - 1)];
    if (g->key == key) return g;
    if (!g->key) { if (!insert || g_gran_used > GN * 3 / 4) return nullptr; g->key = key; g->tid = 0; g->shared = 0; g_gran_used++; return g; }
    h++;
  }
}
bool mem_shared(uintptr_t a, bool) {
  gran_init();
  Gran *g = gran_find(a >> 3, true);
  if (!g) return false;
  uint32_t id = g_cur->id + 1;
  if (!g->tid) { g->tid = id; return false; }
  if (g->tid != id) g->shared = 1;
  return g->shared;
}
void mem_forget(void *p, size_t n) {
  if (!g_gran) return;
  if (n > 65536) n = 65536;
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  for (; a < e; a++) { Gran *g = gran_find(a, false); if (g) { g->tid = 0; g->shared = 0; } }
}
static inline void mem_access(uintptr_t a, uintptr_t site) {
  if (!g_on) return;
  Thread *t = g_cur;
  if (a - t->stack_lo < t->stack_hi - t->stack_lo) return;
  if (mem_shared(a, false)) point(P_MEM, site);
}
void mem_touch(const void *p, uintptr_t site) { mem_access((uintptr_t)p, site); }
extern "C" {
#define CB(n) void __sanitizer_cov_##n(void *p) { mem_access((uintptr_t)p, SITE); }
CB(load1) CB(load2) CB(load4) CB(load8) CB(load16) CB(store1) CB(store2) CB(store4) CB(store8) CB(store16)
static uint32_t g_nguards = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (uint32_t *i = a; i < b; i++) *i = ++g_nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!g_on) return;
  result_edge(*g);
  if (++g_edges_since_seam > 30000000ull) { violation("*", "livelock", "30M branches without a system call"); finish_run("livelock"); }
}
}
uint32_t guard_count() { return g_nguards; }
