// Deterministic simulator for wayuu: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
#include "scenario.h"

typedef uint64_t u64;

// ---------- scheduler ----------
struct Conn;
struct Thread;
struct WaitQ { std::vector<Thread *> q; };

enum TState { T_UNSTARTED, T_RUNNABLE, T_BLOCKED, T_DONE };

struct Thread {
  int id = 0;
  pthread_t real{};
  sem_t sem;
  TState st = T_UNSTARTED;
  u64 ready_seq = 0;
  const char *why = "";
  WaitQ *wq = nullptr;
  u64 timer_gen = 0;
  bool timed_out = false;
  bool eager = true;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false;
  WaitQ join_q;
  uintptr_t stack_lo = 0, stack_hi = 0;
  Conn *conn = nullptr; // connection this worker is serving
  u64 idle_epochs = 0;
  std::string alloc_tag;
  Conn *accepting = nullptr; // acceptor: connection being examined
  u64 pts = 0; // points since this thread last got the baton
};

enum PKind { P_SYNC = 0, P_IO = 1, P_MEM = 2, P_CHEAP = 3 };

extern bool g_on;           // simulation active (inside a run)
extern Thread *g_cur;       // thread holding the baton
extern u64 g_now;           // simulated monotonic time, ns
extern int64_t g_wall_off;  // wall clock offset, ns
extern u64 g_k;             // choice point counter
extern bool g_pcreate_failed; // a thread could not be created
extern u64 g_hash;          // rolling event hash
extern bool g_verbose;
extern std::vector<Thread *> g_threads;

void sched_init(const Scenario &sc);
void point(PKind kind, uintptr_t site);
// generic recorded choice: 0 is the default; p is the probability of a non-default value in [1,n)
int choose(int n, double p);
bool block_on(WaitQ &wq, const char *why, u64 deadline_ns /*0 = none*/);
void wake(Thread *t);
void wake_all(WaitQ &wq);
void sleep_for(u64 ns, const char *why);
void at(u64 t, std::function<void()> fn, bool external = true);
void at_owned(u64 t, std::function<void()> fn);
[[noreturn]] void finish_run(const char *reason);
bool any_waiting_pool();
u64 total_stall_ns();
int sim_spawn(void *(*fn)(void *), void *arg); // harness threads

// event log + hash
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *key, u64 n = 1);
void violation(const char *prop, const std::string &cls, const std::string &detail);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------- network ----------
struct HandlerObs {
  int kind = 0; // 0 filter, 1 handler
  int route = -1;
  u64 t = 0, t_end = 0;
  std::string method, path, query, form, session, ip, url, ctype, reqline;
  std::vector<std::pair<std::string, std::string>> headers;
  bool filter_result = false, ended = false;
  int n_headers = 0;
  size_t rx_at = 0; // request bytes available to the server when it ran
  std::vector<std::pair<std::string, std::string>> tmp; // temporary files named to the handler: name, content
  std::string got_header; bool got_header_set = false;
};
struct Expect { // what the application asked the framework to send
  bool set = false;
  int status = 0;
  std::string ctype;
  std::string body;    // exact bytes expected after the header section
  bool has_cl = false; // response carries Content-Length
  bool logs = true;    // goes through the access log
  std::string file;    // body is this file's content
  bool stream = false;
  u64 t = 0;
};

struct TlsClient;
struct Conn {
  int id = 0; // client index
  bool probe = false;
  std::string ip;
  int port = 0;
  const ClientSpec *spec = nullptr;
  u64 t_connect = 0, t_accept = 0, t_dispatch = 0, t_first_send = 0, t_close = 0;
  int64_t accept_seq = -1;
  int fd = -1;
  bool connected = false, accepted = false, dispatched = false, closed = false;
  bool dead_in_backlog = false;
  int worker = -1, ndispatch = 0;
  std::string rx; size_t rx_off = 0;
  bool rx_eof = false, rx_rst = false;
  bool rst_reported = false;
  bool client_gone = false; // client closed or reset its side
  bool client_fin = false;
  int srv_shut = 0; // 1 rd, 2 wr
  std::string tx;   // all bytes accepted from the server
  size_t tx_delivered = 0;
  size_t window = 1 << 20;
  bool reader_stalled = false;
  bool broken = false;      // connection broken by client or injected fault
  bool recv_err_seen = false, send_err_seen = false;
  int64_t eagain_off = -1;  // bytes read when the server last found that there are no more
  bool linger0 = false;     // SO_LINGER with a time of zero: close() resets
  u64 lost_tx = 0;          // bytes accepted after the client was gone
  std::string sent_by_client; // plaintext the client put on the wire before FIN/RST
  bool client_done_sending = false;
  WaitQ rxq, txq;
  std::vector<HandlerObs> obs;
  std::vector<Expect> expects;
  int closes = 0;
  u64 rcvtimeo = 0, sndtimeo = 0;
  bool shutdown_by_server = false;
  u64 t_shutdown = 0;
  bool shut_by_other = false;
  u64 t_worker_idle = 0; // when the serving worker next waits for work
  bool faulted = false;  // some injected fault hit this connection
  bool closed_by_crash = false;
  std::vector<std::string> tmpfiles; // upload files named to the handler
  u64 t_reqline = 0, t_complete = 0; // when last byte of request line / request was delivered
  u64 t_first_read = 0;
  u64 filter_epoch = 0;
  int http_consumed = 0;
  bool accept_peer_reset = false;
  TlsClient *tls = nullptr;
  bool tls_error = false, tls_close_notify = false;
  int64_t tls_finished_off = -1;
  bool tls_established = false;      // client-side handshake done
  std::string plain_rx;              // plaintext received by TLS client
  size_t wire_checked = 0;
  int ssl_objs = 0;
  int idx = 0;
  bool drain_scheduled = false, free_reader = false, stall_done = false, client_eof = false, client_fin_sent = false;
  bool cut_done = false, released = false, released_reader = false;
  size_t wire_sent = 0, tx_lost_from = 0, eof_reads = 0;
  std::string wire_log;
  std::vector<std::pair<const Fault *, bool>> faults;
  std::vector<std::pair<size_t, u64>> recv_log; // (bytes consumed, time)
  std::vector<std::pair<size_t, u64>> plain_log; // TLS: (plaintext bytes consumed, time)
  u64 last_send_call = 0, t_last_sent = 0, t_eof_read = 0;
  int send_dead = 0, closed_by = -2;
  bool list_fault = false, list_fault_persistent = false;
  u64 t_reg = 0;
  int round = 0;
  std::vector<u64> stalls;
  bool tmp_removed = false; // somebody removed the folder of temporary files meanwhile
  int big_allocs = 0, fault_alloc = 0; // large allocations of its worker outside handlers; those that failed
  u64 fault_files = 0; // injected file faults that hit the thread serving this connection
  std::set<std::string> faulted_paths, faulted_stats;
  int64_t ssl_accept_ok = 0;
  bool tls_injected = false;
  int64_t wall_at_dispatch = 0, wall_at_close = 0;
};

extern std::vector<std::unique_ptr<Conn>> g_conns;
Conn *conn_of_fd(int fd);
void net_start(const Scenario &sc);
Conn *client_connect(const ClientSpec *spec, int id, bool probe, u64 t);
void clients_release_all(); bool clients_left(); // all stalled clients let go
bool net_pending_unserved();
void net_deliver(Conn *c, const std::string &data);
void client_raw_send(Conn *c, const std::string &bytes);
void client_fin(Conn *c);
void client_rst(Conn *c);
void client_close(Conn *c);
extern u64 g_accepts, g_last_progress;
extern bool g_faults_on;
extern std::set<int> g_baseline_fds;
std::vector<std::string> fd_open_list();
void yield_now();
ssize_t net_recv(int fd, void *buf, size_t n, int flags, uintptr_t site);
ssize_t net_send(int fd, const void *buf, size_t n, int flags, uintptr_t site);
size_t backlog_size();
Thread *acceptor_thread();
extern bool g_accepting;
extern u64 g_settle_ns;
const std::string &conn_plain(Conn *c); // bytes the client received at application level
extern bool g_sigpipe_ignored;
extern int g_listen_fd;
extern bool g_idle_seen;

// ---------- tls ----------
void tls_global_init();
void tls_client_start(Conn *c);
void tls_client_input(Conn *c, const std::string &wire, bool eof);
void tls_client_write(Conn *c, const std::string &plain);
void tls_client_shutdown(Conn *c);
void tls_client_inject(Conn *c, const std::string &p);
extern int g_ssl_live;

// ---------- vfs ----------
struct FileVersion { u64 t; bool exists; std::string data; };
void vfs_reset();
void vfs_mkdir_p(const std::string &p);
void vfs_put(const std::string &p, const std::string &data); // records a version
void vfs_truncate(const std::string &p, size_t len);
void vfs_move(const std::string &a, const std::string &b);
void oracle_rotate();
void vfs_append(const std::string &p, const std::string &d);
void vfs_remove(const std::string &p);
bool vfs_get(const std::string &p, std::string &out);
bool vfs_isdir(const std::string &p);
std::vector<FileVersion> vfs_history(const std::string &p);
std::string vfs_norm(const std::string &p);
std::string vfs_dump();
size_t vfs_load(const std::string &s, size_t i);
std::vector<std::string> vfs_list(const std::string &prefix);
int vfs_open_files();
void vfs_close_file(int h);
bool vfs_file_faulted(const std::string &p, u64 from, u64 to);
bool vfs_file_faulted_prefix(const std::string &p);
extern std::string g_stdout_cap, g_stderr_cap;
void stdio_flush_all();

// ---------- alloc ----------
struct HeapStat { u64 blocks = 0, bytes = 0; };
HeapStat heap_stat();
extern bool g_heap_track;
std::string heap_report(u64 since_seq);
u64 heap_seq();

// ---------- run control ----------
extern const Scenario *g_sc;
extern int g_epoch;
void phase_idle();      // called when the simulation has nothing left to do
void process_exit(int code, const char *how);
extern bool g_exited; extern int g_exit_code;
u64 wall_ns();
extern "C" int64_t mono_ns();
bool mem_shared(uintptr_t a, bool wr);
void mem_forget(void *p, size_t n);

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------- oracle / app glue ----------
void oracle_idle_instant();
void oracle_final();
void server_main_thread(const Scenario &sc);

#define US 1000ull
#define MS 1000000ull
#define SEC 1000000000ull
extern std::string g_bound;
