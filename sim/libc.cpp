// Seams for time, memory, process control, and library functions with hidden state.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <sys/wait.h>
#include <unordered_map>
#include <unistd.h>

#define SITE ((uintptr_t)__builtin_return_address(0))
void mem_touch(const void *p, uintptr_t site);
void thread_exit_sim(void *);

// ---------- memory ----------
struct Blk { size_t n; u64 seq; uintptr_t site; };
static std::unordered_map<void *, Blk> g_blk;
static HeapStat g_hs;
static u64 g_mseq = 0;
HeapStat heap_stat() { return g_hs; }
u64 heap_seq() { return g_mseq; }
static int g_fill = -2;
static void fill(void *p, size_t n) {
  if (g_fill == -2) g_fill = (int)g_sc->o("heapfill", 0xA5);
  if (g_fill < 0) { for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)(33 + (i * 7 + g_mseq * 13) % 90); }
  else memset(p, g_fill, n);
}
static const size_t MAXA = 48u << 20;
// no memory for a large block; the application's own allocations do not fail
static bool refuse(size_t n) {
  if (n > MAXA) { count("alloc_refused_huge"); errno = ENOMEM; return true; }
  Conn *c;
  if (n < 32768 || !g_faults_on || !g_cur || !(c = g_cur->conn) || c->id < 0 || c->id >= 100000 || (!c->obs.empty() && !c->obs.back().ended)) return false;
  bool hit = false; c->big_allocs++;
  for (auto &f : g_sc->faults) if (f.kind == "alloc" && f.client == c->id && (f.off > 0 ? c->big_allocs == f.off : c->big_allocs >= -f.off)) hit = true;
  if (hit) { count("fault.alloc"); ev("no memory for %zu bytes for client %d", n, c->id); c->fault_files++; c->fault_alloc++; errno = ENOMEM; }
  return hit;
}
extern "C" {
void *sim_malloc(size_t n) {
  if (!g_on) return malloc(n);
  if (refuse(n)) return nullptr;
  void *p = malloc(n ? n : 1); fill(p, n ? n : 1);
  g_blk[p] = {n, ++g_mseq, SITE}; g_hs.blocks++; g_hs.bytes += n; mem_forget(p, n);
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (!g_on) return calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n) || refuse(n)) { errno = ENOMEM; return nullptr; }
  void *p = calloc(1, n ? n : 1);
  g_blk[p] = {n, ++g_mseq, SITE}; g_hs.blocks++; g_hs.bytes += n; mem_forget(p, n);
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  auto it = g_blk.find(p);
  if (it != g_blk.end()) { g_hs.blocks--; g_hs.bytes -= it->second.n; g_blk.erase(it); }
  free(p);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) { void *q = sim_malloc(n); if (q && g_blk.count(q)) g_blk[q].site = SITE; return q; }
  if (refuse(n)) return nullptr;
  auto it = g_blk.find(p); size_t old = it != g_blk.end() ? it->second.n : 0;
  if (it == g_blk.end()) return realloc(p, n);
  void *q = malloc(n ? n : 1); fill(q, n ? n : 1); memcpy(q, p, std::min(old, n));
  sim_free(p);
  g_blk[q] = {n, ++g_mseq, SITE}; g_hs.blocks++; g_hs.bytes += n; mem_forget(q, n);
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
int sim_posix_memalign(void **out, size_t, size_t n) { *out = sim_malloc(n); return *out ? 0 : ENOMEM; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
static void *tag(void *p, uintptr_t site) { auto it = g_blk.find(p); if (it != g_blk.end()) it->second.site = site; return p; }
char *sim_strdup(const char *s) { mem_touch(s, SITE); size_t n = strlen(s) + 1; char *p = (char *)tag(sim_malloc(n), SITE); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)tag(sim_malloc(n + 1), SITE); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **out, const char *fmt, va_list a) {
  va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, fmt, b); va_end(b);
  *out = (char *)tag(sim_malloc(n + 1), SITE); if (!*out) return -1;
  return vsnprintf(*out, n + 1, fmt, a);
}
int sim_asprintf(char **out, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vasprintf(out, fmt, a); va_end(a); tag(*out, SITE); return r; }
}
extern char __executable_start;
std::string sym_of(uintptr_t a);
std::string heap_report(u64 since) {
  std::map<uintptr_t, std::pair<u64, u64>> by;
  for (auto &b : g_blk) if (b.second.seq > since) { by[b.second.site].first++; by[b.second.site].second += b.second.n; }
  std::vector<std::pair<u64, uintptr_t>> v; for (auto &k : by) v.push_back({k.second.first, k.first});
  std::sort(v.rbegin(), v.rend());
  std::string o;
  for (size_t i = 0; i < v.size() && i < 6; i++) o += strf("%s%llu blocks (%llu bytes) allocated in %s", i ? ", " : "", (unsigned long long)v[i].first, (unsigned long long)by[v[i].second].second, sym_of(v[i].second).c_str());
  return o;
}

// ---------- time ----------
extern "C" {
int64_t mono_ns() { return (int64_t)g_now + g_sc->o("uptime", 5000000) * (int64_t)MS; }
time_t sim_time(time_t *t) { point(P_CHEAP, SITE); time_t r = (time_t)((int64_t)wall_ns() / (int64_t)SEC); if (t) *t = r; return r; }
int sim_gettimeofday(struct timeval *tv, void *) { point(P_CHEAP, SITE); int64_t w = (int64_t)wall_ns(); tv->tv_sec = w / (int64_t)SEC; tv->tv_usec = (w % (int64_t)SEC) / 1000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
  point(P_CHEAP, SITE);
  int64_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? (int64_t)wall_ns() : mono_ns();
  ts->tv_sec = w / (int64_t)SEC; ts->tv_nsec = w % (int64_t)SEC; return 0;
}
int sim_clock_getres(clockid_t, struct timespec *ts) { ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *) { point(P_SYNC, SITE); sleep_for((u64)r->tv_sec * SEC + r->tv_nsec, "sleep"); return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *) {
  point(P_SYNC, SITE); int64_t t = (int64_t)r->tv_sec * (int64_t)SEC + r->tv_nsec;
  if (fl & TIMER_ABSTIME) t -= c == CLOCK_REALTIME ? (int64_t)wall_ns() : mono_ns();
  if (t > 0) sleep_for((u64)t, "sleep");
  return 0;
}
int sim_usleep(useconds_t u) { point(P_SYNC, SITE); sleep_for((u64)u * US, "sleep"); return 0; }
unsigned sim_sleep(unsigned s) { point(P_SYNC, SITE); sleep_for((u64)s * SEC, "sleep"); return 0; }
// functions that return a pointer to static storage
static struct tm g_tm; static char g_tbuf[64];
static void static_state(uintptr_t site) { mem_touch(&g_tm, site); }
struct tm *sim_gmtime(const time_t *t) { static_state(SITE); struct tm x; if (!gmtime_r(t, &x)) return nullptr; g_tm = x; point(P_CHEAP, SITE); return &g_tm; }
// the host's time zone
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { long off = 60 * g_sc->o("tz"); time_t x = *t + off; if (!gmtime_r(&x, o)) return nullptr; o->tm_gmtoff = off; o->tm_zone = off ? "LOC" : "UTC"; return o; }
struct tm *sim_localtime(const time_t *t) { static_state(SITE); struct tm x; if (!sim_localtime_r(t, &x)) return nullptr; g_tm = x; point(P_CHEAP, SITE); return &g_tm; }
char *sim_asctime(const struct tm *t) { static_state(SITE); char b[64]; asctime_r(t, b); strcpy(g_tbuf, b); point(P_CHEAP, SITE); return g_tbuf; }
char *sim_ctime(const time_t *t) { return sim_asctime(sim_localtime(t)); }
void sim_tzset(void) {}
static char *g_strtok;
char *sim_strtok(char *s, const char *d) {
  mem_touch(&g_strtok, SITE);
  char *save = s ? nullptr : g_strtok;
  char *q = s ? s : save;
  if (!q) return nullptr;
  char *r = strtok_r(s, d, &save);
  g_strtok = save;
  mem_touch(&g_strtok, SITE);
  return r;
}
static u64 g_rnd = 12345;
int sim_rand(void) { mem_touch(&g_rnd, SITE); Rng r(g_rnd); g_rnd = r.next(); return (int)(g_rnd >> 33); }
void sim_srand(unsigned s) { g_rnd = s; }
long sim_random(void) { return sim_rand(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(sim_rand() >> 8); return n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
uint32_t sim_arc4random(void) { return (uint32_t)sim_rand() << 1 ^ (uint32_t)sim_rand(); }
void sim_srandom(unsigned s) { g_rnd = s; }
int sim_rand_r(unsigned *s) { Rng r(*s); *s = (unsigned)r.next(); return *s >> 1; }
pid_t sim_getpid(void) { return 4242; }
pid_t sim_gettid(void) { return 4242 + (g_cur ? g_cur->id : 0); }
char *sim_getenv(const char *) { return nullptr; }
char *sim_secure_getenv(const char *) { return nullptr; }

// ---------- string functions as places where another thread may run ----------
#define T1(a) mem_touch(a, SITE)
char *sim_strcpy(char *d, const char *s) { T1(d); T1(s); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { T1(d); T1(s); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { T1(d); T1(s); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { T1(d); T1(s); return strncat(d, s, n); }
int sim_strcmp(const char *a, const char *b) { T1(a); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { T1(a); return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { T1(a); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { T1(a); return strncasecmp(a, b, n); }
size_t sim_strlen(const char *a) { T1(a); return strlen(a); }
char *sim_strstr(const char *a, const char *b) { T1(a); return (char *)strstr(a, b); }
void *sim_memcpy(void *d, const void *s, size_t n) { T1(d); T1(s); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { T1(d); T1(s); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { T1(d); return memset(d, c, n); }
// formatted first, then copied by the checked memcpy, so that an overflow is reported before it destroys the stack
static int vsp(char *b, const char *fmt, va_list a) {
  va_list c; va_copy(c, a); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c);
  if (n < 0) return n;
  char *t = (char *)malloc((size_t)n + 1); vsnprintf(t, (size_t)n + 1, fmt, a); memcpy(b, t, (size_t)n + 1); free(t);
  return n;
}
int sim_sprintf(char *b, const char *fmt, ...) { T1(b); va_list a; va_start(a, fmt); int r = vsp(b, fmt, a); va_end(a); T1(b); return r; }
int sim_snprintf(char *b, size_t n, const char *fmt, ...) { T1(b); va_list a; va_start(a, fmt); int r = vsnprintf(b, n, fmt, a); va_end(a); T1(b); return r; }
int sim_vsprintf(char *b, const char *fmt, va_list a) { T1(b); return vsp(b, fmt, a); }
int sim_vsnprintf(char *b, size_t n, const char *fmt, va_list a) { T1(b); return vsnprintf(b, n, fmt, a); }

// ---------- process ----------
void (*sim_signal(int s, void (*h)(int)))(int) { if (s == SIGPIPE) g_sigpipe_ignored = h != SIG_DFL; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (s == SIGPIPE && a) g_sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
int sim_sigprocmask(int, const sigset_t *s, sigset_t *) { if (s && sigismember(s, SIGPIPE)) g_sigpipe_ignored = true; return 0; }
void sim_exit(int c) { point(P_IO, SITE); stdio_flush_all(); process_exit(c, "exit"); for (;;) ; }
void sim__exit(int c) { process_exit(c, "_exit"); for (;;) ; }
void sim_quick_exit(int c) { process_exit(c, "exit"); for (;;) ; }
void sim_abort(void) { process_exit(-6, "abort"); for (;;) ; }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { process_exit(-6, "assert"); for (;;) ; }
int sim_raise(int s) { process_exit(-s, "raise"); return 0; }
int sim_kill(pid_t, int s) { if (s) process_exit(-s, "kill"); return 0; }
int sim_atexit(void (*)(void)) { return 0; }
int sim_pause(void) { sleep_for(3600 * SEC, "sleep"); return -1; }
pid_t sim_fork(void) { errno = ENOSYS; return -1; }
int sim_daemon(int, int) { return 0; }
}
