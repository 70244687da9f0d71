// Simulated descriptors, sockets and clients.
#include "sim.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include "vfs.h"

std::vector<std::unique_ptr<Conn>> g_conns;
u64 g_accepts = 0, g_last_progress = 0, g_settle_ns = 300 * MS;
bool g_faults_on = true, g_sigpipe_ignored = false;
int g_listen_fd = -1;
std::set<int> g_baseline_fds;
bool g_accepting = false; // accept() was called at least once
static Thread *g_acceptor = nullptr;
static WaitQ g_acceptq;
static std::vector<Conn *> g_backlog;
static u64 g_accept_calls = 0;
static bool g_baseline_done = false;
std::string g_bound;
std::string g_taken;

enum { K_FREE, K_SOCK, K_LISTEN, K_CONN, K_FILE };
struct FdEnt { int kind = K_FREE; Conn *c = nullptr; int h = -1; bool nonblock = false; bool raw = false; bool reuse = false; };
static std::vector<FdEnt> g_fds(3);

static int fd_new(int kind) {
  size_t lim = (size_t)g_sc->o("fdlimit", 1024); if (!g_faults_on && lim < 1024) lim = 1024; // descriptors are short only while faults last
  for (size_t i = 3; i < lim; i++) {
    if (i >= g_fds.size()) g_fds.resize(i + 1);
    if (g_fds[i].kind == K_FREE) { g_fds[i] = FdEnt(); g_fds[i].kind = kind; return (int)i; }
  }
  count("fault.EMFILE");
  errno = EMFILE;
  return -1;
}
static FdEnt *ent(int fd) { return fd >= 0 && fd < (int)g_fds.size() && g_fds[fd].kind != K_FREE ? &g_fds[fd] : nullptr; }
Conn *conn_of_fd(int fd) { FdEnt *e = ent(fd); return e && e->kind == K_CONN ? e->c : nullptr; }
int fd_alloc_file(int h, bool raw) { int fd = fd_new(K_FILE); if (fd >= 0) { g_fds[fd].h = h; g_fds[fd].raw = raw; } return fd; }
int fd_file_handle(int fd) { FdEnt *e = ent(fd); return e && e->kind == K_FILE ? e->h : -1; }
void fd_release_file(int fd) { FdEnt *e = ent(fd); if (e && e->kind == K_FILE) *e = FdEnt(); }
std::vector<std::string> fd_open_list() {
  std::vector<std::string> v;
  for (size_t i = 3; i < g_fds.size(); i++) {
    if (g_fds[i].kind == K_CONN) v.push_back(strf("fd %zu: connection of client %d", i, g_fds[i].c->id));
    if (g_fds[i].kind == K_FILE) { std::string p = vfs_handle_path(g_fds[i].h); if (!g_baseline_fds.count((int)i)) v.push_back(strf("fd %zu: file %s", i, p.c_str())); }
  }
  return v;
}

// ---------- dispatch bookkeeping ----------
static void note_use(Conn *c, const char *what) {
  Thread *t = g_cur;
  if (t == g_acceptor) return;
  if (t->conn == c) return;
  if (t->conn) { if (!t->conn->t_worker_idle) t->conn->t_worker_idle = g_now; }
  t->conn = c;
  if (c->worker == t->id) return;
  c->ndispatch++;
  g_last_progress = g_now;
  if (c->ndispatch > 1) {
    violation("C02", "served-by-two-threads", strf("connection of client %d (fd %d) is used by thread %d (%s) after thread %d", c->id, c->fd, t->id, what, c->worker));
    violation("C08", "descriptor-used-by-other-thread", strf("%s on fd %d by thread %d, which belongs to client %d served by thread %d", what, c->fd, t->id, c->id, c->worker));
  }
  c->worker = t->id;
  c->dispatched = true;
  if (!c->t_dispatch) c->t_dispatch = g_now;
  ev("dispatch client %d to T%d", c->id, t->id);
}
static void misuse(const char *what, int fd) {
  Thread *t = g_cur;
  if (!t->conn && t != g_acceptor && g_accepting && t->fn) violation("C02", "bogus-dispatch", strf("thread %d serves descriptor %d, which is not an accepted connection (%s)", t->id, fd, what));
  violation("C08", strf("%s-bad-descriptor", what), strf("%s(%d) on a descriptor that is not open (thread %d, last served client %d)", what, fd, t->id, t->conn ? t->conn->id : -1));
}

// ---------- client side ----------
static void client_read_some(Conn *c, size_t max);
static void drain_tick(Conn *c);
static void schedule_drain(Conn *c) {
  if (c->drain_scheduled || c->reader_stalled || c->client_gone) return;
  if (c->tx_delivered >= c->tx.size()) return;
  const ClientSpec *sp = c->spec;
  if (!sp->read_rate || c->free_reader) { client_read_some(c, c->tx.size()); return; }
  c->drain_scheduled = true;
  at(g_now + 1 * MS, [c] { c->drain_scheduled = false; drain_tick(c); });
}
static void drain_tick(Conn *c) {
  if (c->client_gone || c->reader_stalled) return;
  client_read_some(c, c->spec->read_rate ? c->spec->read_rate : c->tx.size());
  schedule_drain(c);
}
static void client_read_some(Conn *c, size_t max) {
  const ClientSpec *sp = c->spec;
  size_t n = std::min(max, c->tx.size() - c->tx_delivered);
  if (sp->read_stop >= 0 && !c->stall_done && c->tx_delivered + n >= (size_t)sp->read_stop) {
    n = (size_t)sp->read_stop > c->tx_delivered ? sp->read_stop - c->tx_delivered : 0;
    c->reader_stalled = true; c->stall_done = true;
    count("fault.reader_stall");
    ev("client %d stops reading at %zu", c->id, c->tx_delivered + n);
    if (!sp->persist) at(g_now + sp->resume * US, [c] { c->reader_stalled = false; ev("client %d reads again", c->id); schedule_drain(c); });
  }
  if (n) {
    std::string d = c->tx.substr(c->tx_delivered, n);
    c->tx_delivered += n;
    if (c->tls) tls_client_input(c, d, false);
    wake_all(c->txq);
  }
  if (c->closed && c->tx_delivered >= c->tx.size() && !c->client_eof) { c->client_eof = true; if (c->tls) tls_client_input(c, "", true); }
}
static void client_see_close(Conn *c) {
  if (c->client_gone) return;
  if (c->tx_delivered >= c->tx.size()) { if (!c->client_eof) { c->client_eof = true; if (c->tls) tls_client_input(c, "", true); } }
  else schedule_drain(c);
}
void net_deliver(Conn *c, const std::string &data) {
  if (data.empty() || c->rx_rst || c->closed) return;
  c->rx += data;
  g_last_progress = g_now;
  wake_all(c->rxq);
}
void client_raw_send(Conn *c, const std::string &bytes) {
  if (c->client_gone || c->client_fin_sent) return;
  std::string b = bytes;
  const ClientSpec *sp = c->spec;
  bool cut = false;
  if (sp->tls && sp->tls_cut >= 0 && !c->cut_done) {
    if ((int64_t)(c->wire_sent + b.size()) >= sp->tls_cut) { b.resize(sp->tls_cut - c->wire_sent); cut = true; }
  } else if (c->cut_done) return;
  c->wire_sent += b.size();
  c->wire_log += b;
  net_deliver(c, b);
  if (cut) {
    c->cut_done = true; count("fault.tls_cut"); ev("client %d cuts its stream", c->id);
    if (sp->tls_cut_kind == 'F') client_fin(c);
    else if (sp->tls_cut_kind == 'R') client_rst(c);
  }
}
void client_fin(Conn *c) {
  if (c->client_gone || c->client_fin_sent) return;
  c->client_fin_sent = true; c->rx_eof = true; c->client_done_sending = true;
  ev("client %d FIN", c->id);
  wake_all(c->rxq);
}
void client_rst(Conn *c) {
  if (c->client_gone) return;
  if (c->closed && c->tx_delivered >= c->tx.size()) { c->client_gone = true; return; }
  c->client_gone = true; c->rx_rst = true; c->rx_eof = true; c->broken = true; c->client_done_sending = true;
  count("fault.client_reset");
  ev("client %d RST", c->id);
  if (!c->accepted) c->dead_in_backlog = true;
  wake_all(c->rxq); wake_all(c->txq);
}
void client_close(Conn *c) {
  if (c->client_gone) return;
  bool done = c->closed && c->tx_delivered >= c->tx.size();
  c->client_gone = true; c->rx_eof = true; c->client_done_sending = true;
  if (!done) { c->broken = true; count("fault.client_close"); }
  ev("client %d closes", c->id);
  wake_all(c->rxq); wake_all(c->txq);
}
static void run_action(Conn *c, size_t i) {
  const auto &acts = c->spec->acts;
  if (i >= acts.size()) { c->client_done_sending = true; return; }
  const Action &a = acts[i];
  switch (a.type) {
  case 'S':
    if (!c->client_gone && !c->client_fin_sent && !c->closed) {
      if (c->tls) tls_client_write(c, a.data);
      else { c->sent_by_client += a.data; client_raw_send(c, a.data); ev("client %d sends %zu", c->id, a.data.size()); }
    }
    break;
  case 'P': if (c->tls && !c->client_gone && !c->client_fin_sent && !c->closed) tls_client_inject(c, a.data); break;
  case 'F': count("client_fin"); if (c->tls) tls_client_shutdown(c); client_fin(c); break;
  case 'R': client_rst(c); break;
  case 'C': client_close(c); break;
  default: break;
  }
  if (i + 1 < acts.size()) at(g_now + acts[i + 1].delay * US, [c, i] { run_action(c, i + 1); });
  else c->client_done_sending = true;
}
Conn *client_connect(const ClientSpec *spec, int id, bool probe, u64 t) {
  g_conns.emplace_back(new Conn);
  Conn *c = g_conns.back().get();
  c->idx = (int)g_conns.size() - 1;
  c->id = id; c->probe = probe; c->spec = spec; c->ip = spec->ip; c->port = 20000 + (int)g_conns.size();
  c->window = spec->window;
  if (id >= 0 && !probe) for (auto &f : g_sc->faults) if (f.client == id && (f.kind == "recv" || f.kind == "send")) c->faults.push_back({&f, false});
  at(t, [c] {
    c->connected = true; c->t_connect = g_now;
    g_last_progress = g_now;
    ev("client %d connects from %s", c->id, c->ip.c_str());
    g_backlog.push_back(c);
    if (c->spec->tls) tls_client_start(c);
    wake_all(g_acceptq);
    if (!c->spec->acts.empty()) at(g_now + c->spec->acts[0].delay * US, [c] { run_action(c, 0); });
    else c->client_done_sending = true;
  });
  return c;
}
void clients_release_all() {
  size_t n = g_conns.size();
  for (size_t i = 0; i < n; i++) {
    Conn *c = g_conns[i].get();
    if (c->client_gone) continue;
    if (c->reader_stalled) { c->reader_stalled = false; c->released_reader = true; c->free_reader = true; schedule_drain(c); continue; }
    if (!c->closed || c->tx_delivered < c->tx.size()) { c->released = true; client_close(c); }
  }
}
bool clients_left() {
  for (auto &c : g_conns) if (!c->client_gone && !c->released && (!c->closed || c->tx_delivered < c->tx.size())) return true;
  return false;
}
bool net_pending_unserved() {
  if (!g_backlog.empty()) return true;
  for (auto &c : g_conns) if (c->accepted && !c->dispatched && !c->closed) return true;
  return false;
}
void net_start(const Scenario &sc) {
  g_settle_ns = (u64)sc.o("settle_ms", 300) * MS;
  for (auto &f : sc.files) (void)f;
}
void yield_now() {
  // a failing call that is retried at once must let the others run
  sleep_for(20 * US, "work");
}

// ---------- system calls ----------
#define SITE ((uintptr_t)__builtin_return_address(0))
static const Fault *startup_fault(const char *op) {
  if (!g_faults_on) return nullptr;
  for (auto &f : g_sc->faults) if (f.kind == "startup" && f.op == op && (f.epoch < 0 || f.epoch == g_epoch)) { count((std::string("fault.startup.") + op).c_str()); return &f; }
  return nullptr;
}
extern u64 g_edges_since_seam;
void tcp_recv_mark(Conn *c);

ssize_t net_recv(int fd, void *buf, size_t n, int flags, uintptr_t site) {
  point(P_IO, site);
  FdEnt *e = ent(fd);
  if (!e) { misuse("recv", fd); errno = EBADF; return -1; }
  if (e->kind == K_FILE) { errno = ENOTSOCK; return -1; }
  if (e->kind != K_CONN) { errno = ENOTCONN; return -1; }
  Conn *c = e->c;
  note_use(c, "recv");
  if (flags & MSG_OOB) { errno = EINVAL; return -1; } // clients send no urgent data
  if (!c->t_first_read) c->t_first_read = g_now;
  u64 dl = c->rcvtimeo ? g_now + c->rcvtimeo : 0;
  size_t cap = n;
  if (g_faults_on && !(flags & MSG_PEEK)) for (auto &f : c->faults) {
    if (f.second || f.first->kind != "recv" || (int64_t)c->rx_off < f.first->off) continue;
    f.second = true; c->faulted = true;
    if (f.first->err == 0) { cap = std::max<size_t>(1, std::min<size_t>(n, f.first->arg)); count("fault.recv_short"); continue; }
    if (f.first->err == EINTR) { count("fault.recv_EINTR"); ev("recv EINTR client %d at %zu", c->id, c->rx_off); errno = EINTR; return -1; }
    count("fault.recv_error"); ev("recv error %d client %d at %zu", f.first->err, c->id, c->rx_off);
    c->broken = true; c->rx_rst = true; c->rst_reported = true; c->recv_err_seen = true; c->client_gone = true; c->rx.resize(std::min(c->rx.size(), c->rx_off));
    c->client_done_sending = true;
    errno = f.first->err; return -1;
  }
  for (;;) {
    if (c->srv_shut & 1) return 0;
    if (c->rx_rst && !c->rst_reported) { c->rst_reported = true; c->recv_err_seen = true; c->rx.resize(std::min(c->rx.size(), c->rx_off)); errno = ECONNRESET; ev("recv ECONNRESET client %d", c->id); return -1; }
    size_t av = c->rx.size() - c->rx_off;
    if (av) {
      size_t k = std::min(av, cap);
      memcpy(buf, c->rx.data() + c->rx_off, k);
      if (!(flags & MSG_PEEK)) { c->rx_off += k; if (k > 1 || c->rx[c->rx_off - 1] == '\n') ev("recv client %d at %zu", c->id, c->rx_off); if (!c->recv_log.size() || c->recv_log.back().second != g_now) c->recv_log.push_back({c->rx_off, g_now}); else c->recv_log.back().first = c->rx_off; }
      g_last_progress = g_now;
      if ((flags & MSG_WAITALL) && k < n && !(flags & MSG_PEEK) && cap == n) {
        size_t got = k;
        while (got < n) {
          if (c->rx_off < c->rx.size()) { size_t q = std::min(n - got, c->rx.size() - c->rx_off); memcpy((char *)buf + got, c->rx.data() + c->rx_off, q); c->rx_off += q; got += q; continue; }
          if (c->rx_eof || (c->srv_shut & 1)) break;
          if (!block_on(c->rxq, "recv", dl)) break;
          if (!ent(fd) || ent(fd)->c != c) break;
        }
        return got;
      }
      return k;
    }
    if (c->rx_eof) { if (!c->t_eof_read) { c->t_eof_read = g_now; ev("recv EOF client %d", c->id); } c->eof_reads++; if (c->eof_reads > 100 && (c->eof_reads & 255) == 0) yield_now(); return 0; }
    if ((flags & MSG_DONTWAIT) || e->nonblock) { c->eagain_off = c->rx_off; errno = EAGAIN; return -1; }
    if (!block_on(c->rxq, "recv", dl)) { count("recv_timeout"); errno = EAGAIN; return -1; }
    e = ent(fd);
    if (!e || e->kind != K_CONN || e->c != c) { misuse("recv", fd); errno = EBADF; return -1; }
  }
}
void process_exit(int code, const char *how);
ssize_t net_send(int fd, const void *buf, size_t n, int flags, uintptr_t site) {
  point(P_IO, site);
  FdEnt *e = ent(fd);
  if (!e) { misuse("send", fd); errno = EBADF; return -1; }
  if (e->kind == K_FILE) { errno = ENOTSOCK; return -1; }
  if (e->kind != K_CONN) { errno = ENOTCONN; return -1; }
  Conn *c = e->c;
  note_use(c, "send");
  c->last_send_call = g_now;
  if (!c->t_first_send) c->t_first_send = g_now;
  // reading the caller's buffer through memcpy lets ASan see an over-read
  std::string data((const char *)buf, n);
  size_t cap = n;
  if (g_faults_on) for (auto &f : c->faults) {
    if (f.second || f.first->kind != "send") continue;
    int64_t off = f.first->off;
    if (off < (int64_t)c->tx.size()) off = c->tx.size();
    if (off >= (int64_t)(c->tx.size() + n) && n) continue;
    size_t part = off - c->tx.size();
    if (f.first->err == 0) { f.second = true; c->faulted = true; if (part) { cap = std::min(cap, part); count("fault.send_short"); } continue; }
    if (part) { cap = std::min(cap, part); count("fault.send_short"); continue; }
    f.second = true; c->faulted = true;
    if (f.first->err == EINTR) { count("fault.send_EINTR"); ev("send EINTR client %d at %zu", c->id, c->tx.size()); errno = EINTR; return -1; }
    if (f.first->err == ENOBUFS || f.first->err == ENOMEM) { count("fault.send_transient"); ev("send error %d client %d at %zu", f.first->err, c->id, c->tx.size()); c->broken = true; c->send_err_seen = true; errno = f.first->err; return -1; }
    count("fault.send_error"); ev("send error %d client %d at %zu", f.first->err, c->id, c->tx.size());
    c->broken = true; c->send_err_seen = true; c->client_gone = true; c->rx_eof = true; c->client_done_sending = true; c->send_dead = f.first->err;
    break;
  }
  u64 dl = c->sndtimeo ? g_now + c->sndtimeo : 0;
  size_t done = 0;
  for (;;) {
    bool dead = false; int er = 0;
    if (c->srv_shut & 2) { dead = true; er = EPIPE; }
    else if (c->send_dead) { dead = true; er = c->send_dead; c->send_dead = EPIPE; }
    else if (c->rx_rst) { dead = true; er = c->rst_reported ? EPIPE : ECONNRESET; c->rst_reported = true; }
    else if (c->client_gone) {
      if (c->lost_tx) { dead = true; er = EPIPE; }
      else { c->lost_tx += data.size() - done; c->tx_lost_from = c->tx.size(); ev("send to a closed client %d", c->id); return n; }
    }
    if (dead) {
      if (done) return done;
      c->send_err_seen = true; if (!(c->srv_shut & 2)) c->broken = true; // what the server did to itself is no excuse
      ev("send fails %d client %d", er, c->id);
      if (er == EPIPE && !(flags & MSG_NOSIGNAL) && !g_sigpipe_ignored) process_exit(-13, "SIGPIPE");
      errno = er; return -1;
    }
    if (n == 0) return 0;
    size_t room = c->window - std::min(c->window, c->tx.size() - c->tx_delivered);
    size_t k = std::min(room, cap - done);
    if (k) {
      c->tx.append(data, done, k); c->t_last_sent = g_now;
      done += k;
      g_last_progress = g_now;
      ev("send client %d %zu (total %zu)", c->id, k, c->tx.size());
      schedule_drain(c);
      if (done >= cap) return done;
      continue;
    }
    if ((flags & MSG_DONTWAIT) || e->nonblock) { if (done) return done; errno = EAGAIN; return -1; }
    count("send_blocked");
    if (!block_on(c->txq, "send", dl)) { if (done) return done; errno = EAGAIN; return -1; }
    e = ent(fd);
    if (!e || e->kind != K_CONN || e->c != c) { misuse("send", fd); errno = EBADF; return -1; }
  }
}
static int do_close(int fd, uintptr_t site) {
  point(P_IO, site);
  if (fd < 0) { errno = EBADF; return -1; }
  FdEnt *e = ent(fd);
  if (!e) { misuse("close", fd); errno = EBADF; return -1; }
  if (e->kind == K_FILE) {
    if (!e->raw) violation("C08", "closed-foreign-file", strf("close(%d) closes the file %s that is in use by a stream", fd, vfs_handle_path(e->h).c_str()));
    int h = e->h; *e = FdEnt(); vfs_handle_close(h); return 0;
  }
  if (e->kind == K_CONN) {
    Conn *c = e->c;
    note_use(c, "close");
    c->closed = true; c->t_close = g_now; c->closes++; c->wall_at_close = wall_ns();
    c->closed_by = g_cur == g_acceptor ? -1 : g_cur->id;
    for (auto t : g_threads) if (t != g_cur && t->conn == c && t->st == T_BLOCKED && (!strcmp(t->why, "recv") || !strcmp(t->why, "send"))) {
      violation("C08", "closed-while-in-use", strf("fd %d closed while thread %d is blocked on it", fd, t->id));
      if (g_cur != g_acceptor) violation("C13", "worker-not-freed", strf("thread %d closed the connection of client %d while its worker (thread %d) is blocked on it, which does not free the worker", g_cur->id, c->id, t->id));
    }
    bool unread = c->rx_off < c->rx.size() && !c->client_gone; // the kernel resets a connection that is closed with unread bytes
    if (unread) count("closed_with_unread_bytes");
    if (unread && c->tx_delivered < c->tx.size() && c->eagain_off == (int64_t)c->rx_off) { c->broken = true; count("unread_bytes_came_too_late"); }
    if ((c->linger0 || unread) && !c->rx_rst && c->tx_delivered < c->tx.size()) { // the close throws away what was not delivered
      c->lost_tx += c->tx.size() - c->tx_delivered; count("response_lost_by_close"); ev("%zu bytes lost: %s", c->tx.size() - c->tx_delivered, unread ? "unread bytes at close" : "linger"); c->tx.resize(c->tx_delivered);
    }
    ev("close client %d", c->id);
    g_last_progress = g_now;
    client_see_close(c);
    wake_all(c->rxq); wake_all(c->txq);
  }
  if (e->kind == K_LISTEN) g_listen_fd = -1;
  *e = FdEnt();
  return 0;
}
void on_first_accept();
extern "C" {
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return net_recv(fd, b, n, fl, SITE); }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return net_recv(fd, b, n, fl, SITE); }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return net_send(fd, b, n, fl, SITE); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, void *, socklen_t) { return net_send(fd, b, n, fl, SITE); }
ssize_t sim_read(int fd, void *b, size_t n) {
  int h = fd_file_handle(fd);
  if (h >= 0) { point(P_IO, SITE); return vfs_handle_read(h, (char *)b, n); }
  return net_recv(fd, b, n, 0, SITE);
}
ssize_t sim_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) { point(P_IO, SITE); (fd == 1 ? g_stdout_cap : g_stderr_cap).append((const char *)b, n); return n; }
  int h = fd_file_handle(fd);
  if (h >= 0) { point(P_IO, SITE); return vfs_handle_write(h, (const char *)b, n); }
  return net_send(fd, b, n, 0, SITE);
}
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
  std::string s; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
  return sim_write(fd, s.data(), s.size());
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) { return n ? sim_read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) {
  std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return net_send(fd, s.data(), s.size(), fl, SITE);
}
int sim_close(int fd) { return do_close(fd, SITE); }
int sim_shutdown(int fd, int how) {
  point(P_IO, SITE);
  FdEnt *e = ent(fd);
  if (!e) { misuse("shutdown", fd); errno = EBADF; return -1; }
  if (e->kind == K_LISTEN) { return 0; }
  if (e->kind != K_CONN) { errno = ENOTSOCK; return -1; }
  Conn *c = e->c;
  if (how == SHUT_RD || how == SHUT_RDWR) c->srv_shut |= 1;
  if (how == SHUT_WR || how == SHUT_RDWR) c->srv_shut |= 2;
  if (how == SHUT_RDWR) { c->shutdown_by_server = true; if (!c->t_shutdown) c->t_shutdown = g_now; if (g_cur->conn != c && g_cur->id != c->worker) c->shut_by_other = true; }
  ev("shutdown client %d how %d", c->id, how);
  g_last_progress = g_now;
  wake_all(c->rxq); wake_all(c->txq);
  return 0;
}
int sim_socket(int dom, int type, int proto) {
  point(P_IO, SITE);
  if (auto f = startup_fault("socket")) { errno = f->err; return -1; }
  if (dom != AF_INET && dom != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
  if ((type & 0xf) != SOCK_STREAM || (proto != 0 && proto != IPPROTO_TCP)) { errno = EPROTONOSUPPORT; return -1; }
  return fd_new(K_SOCK);
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
  point(P_IO, SITE);
  FdEnt *e = ent(fd); if (!e) { errno = EBADF; return -1; }
  if (l < sizeof(struct sockaddr_in)) { errno = EINVAL; return -1; }
  if (a->sa_family != AF_INET && !(a->sa_family == AF_UNSPEC && ((const struct sockaddr_in *)a)->sin_addr.s_addr == INADDR_ANY)) { errno = EAFNOSUPPORT; return -1; }
  // connections of the run before still wait for their last packets
  if (!e->reuse && (g_epoch > 0 || g_sc->o("timewait"))) { bool f = false; for (auto &x : g_sc->faults) f |= x.kind == "startup" && x.op == "setsockopt"; if (!f) { count("bind_in_time_wait"); errno = EADDRINUSE; return -1; } }
  std::string want; if (l >= sizeof(struct sockaddr_in)) { const struct sockaddr_in *s = (const struct sockaddr_in *)a; want = strf("%s:%d", inet_ntoa(s->sin_addr), ntohs(s->sin_port)); }
  std::string &taken = g_taken; // the fault is about one address and port: any other one is free
  if (taken.empty() || taken == want) if (auto f = startup_fault("bind")) { taken = want; errno = f->err; return -1; }
  if (l >= sizeof(struct sockaddr_in)) { const struct sockaddr_in *s = (const struct sockaddr_in *)a; g_bound = strf("%s:%d", inet_ntoa(s->sin_addr), ntohs(s->sin_port)); }
  return 0;
}
int sim_listen(int fd, int) {
  point(P_IO, SITE);
  if (auto f = startup_fault("listen")) { errno = f->err; return -1; }
  FdEnt *e = ent(fd); if (!e) { errno = EBADF; return -1; }
  e->kind = K_LISTEN; g_listen_fd = fd;
  return 0;
}
int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) {
  if (auto f = startup_fault("setsockopt")) { errno = f->err; return -1; }
  FdEnt *e = ent(fd); if (!e) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && e->kind == K_CONN && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(struct timeval)) {
    const struct timeval *tv = (const struct timeval *)v;
    u64 ns = (u64)tv->tv_sec * SEC + (u64)tv->tv_usec * US;
    (opt == SO_RCVTIMEO ? e->c->rcvtimeo : e->c->sndtimeo) = ns;
  }
  if (lvl == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && l >= sizeof(int)) e->reuse = *(const int *)v != 0;
  if (lvl == SOL_SOCKET && e->kind == K_CONN && opt == SO_LINGER && l >= sizeof(struct linger)) { const struct linger *g = (const struct linger *)v; e->c->linger0 = g->l_onoff && g->l_linger == 0; }
  return 0;
}
int sim_getsockopt(int fd, int, int, void *v, socklen_t *l) { if (!ent(fd)) { errno = EBADF; return -1; } if (*l >= 4) *(int *)v = 0; return 0; }
static int fill_addr(const std::string &ip, int port, struct sockaddr *a, socklen_t *l) {
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  s.sin_family = AF_INET; s.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &s.sin_addr);
  if (a && l) { memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = sizeof s; }
  return 0;
}
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  point(P_IO, SITE);
  FdEnt *e = ent(fd);
  if (!e) { misuse("getpeername", fd); errno = EBADF; return -1; }
  if (e->kind != K_CONN) { errno = ENOTCONN; return -1; }
  note_use(e->c, "getpeername");
  if (e->c->rx_rst) { count("getpeername_ENOTCONN"); errno = ENOTCONN; return -1; }
  return fill_addr(e->c->ip, e->c->port, a, l);
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (!ent(fd)) { errno = EBADF; return -1; } return fill_addr("127.0.0.1", 4443, a, l); }
static void serving_from_now() {
  if (g_baseline_done) return;
  g_baseline_done = true; g_accepting = true;
  for (size_t i = 3; i < g_fds.size(); i++) if (g_fds[i].kind != K_FREE) g_baseline_fds.insert((int)i);
  on_first_accept();
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *l) {
  point(P_IO, SITE);
  FdEnt *e = ent(fd);
  if (!e || e->kind != K_LISTEN) { errno = e ? EINVAL : EBADF; return -1; }
  g_acceptor = g_cur;
  g_acceptor->accepting = nullptr;
  serving_from_now();
  for (;;) {
    if (g_backlog.empty()) {
      if (e->nonblock) { errno = EAGAIN; return -1; }
      block_on(g_acceptq, "accept", 0);
      e = ent(fd); if (!e || e->kind != K_LISTEN) { errno = EBADF; return -1; }
      continue;
    }
    g_accept_calls++;
    if (g_faults_on) {
      const Fault *hit = nullptr;
      for (auto &f : g_sc->faults) if (f.kind == "accept" && f.off == (int64_t)g_accept_calls) hit = &f;
      if (hit) {
        count(strf("fault.accept_%d", hit->err).c_str()); ev("accept error %d", hit->err);
        yield_now();
        errno = hit->err; return -1;
      }
    }
    int nfd = fd_new(K_CONN);
    if (nfd < 0) { ev("accept EMFILE"); yield_now(); errno = EMFILE; return -1; }
    Conn *c = g_backlog.front(); g_backlog.erase(g_backlog.begin());
    g_fds[nfd].c = c;
    c->fd = nfd; c->accepted = true; c->t_accept = g_now; c->accept_seq = (int64_t)g_accepts++;
    c->wall_at_dispatch = wall_ns();
    g_acceptor->accepting = c;
    g_last_progress = g_now;
    ev("accept client %d as fd %d", c->id, nfd);
    fill_addr(c->ip, c->port, a, l);
    return nfd;
  }
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { int r = sim_accept(fd, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) g_fds[r].nonblock = true; return r; }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  FdEnt *e = ent(fd); if (!e) { if (fd >= 0 && fd < 3) return 0; errno = EBADF; return -1; }
  if (cmd == F_GETFL) return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { e->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); int *arg = va_arg(ap, int *); va_end(ap);
  FdEnt *e = ent(fd); if (!e) { errno = EBADF; return -1; }
  if (req == FIONBIO) e->nonblock = *arg != 0;
  else if (req == FIONREAD && e->kind == K_CONN) *arg = (int)(e->c->rx.size() - e->c->rx_off);
  return 0;
}
static short poll_one(int fd, short evs) {
  FdEnt *e = ent(fd); if (!e) return POLLNVAL;
  short r = 0;
  if (e->kind == K_LISTEN) { if (!g_backlog.empty()) r |= POLLIN; }
  else if (e->kind == K_CONN) {
    Conn *c = e->c;
    if (c->rx_off < c->rx.size() || c->rx_eof || (c->srv_shut & 1)) r |= POLLIN;
    if (c->client_gone || c->tx.size() - c->tx_delivered < c->window) r |= POLLOUT;
    if (c->rx_rst) r |= POLLERR | POLLHUP;
  } else r = POLLIN | POLLOUT;
  return r & (evs | POLLERR | POLLHUP | POLLNVAL);
}
int sim_poll(struct pollfd *p, nfds_t n, int ms) {
  point(P_IO, SITE);
  u64 dl = ms < 0 ? 0 : g_now + (u64)ms * MS;
  // a server may wait for connections here before it accepts them
  for (nfds_t i = 0; i < n; i++) if ((p[i].events & POLLIN) && ent(p[i].fd) && ent(p[i].fd)->kind == K_LISTEN) { if (!g_acceptor) g_acceptor = g_cur; serving_from_now(); }
  for (;;) {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = p[i].fd < 0 ? 0 : poll_one(p[i].fd, p[i].events); if (p[i].revents) k++;
      Conn *c = conn_of_fd(p[i].fd); if (c) note_use(c, "poll");
    }
    if (k || ms == 0) return k;
    if (dl && g_now >= dl) return 0;
    // wait on the single descriptor when there is one, otherwise poll the clock
    Conn *c = n == 1 ? conn_of_fd(p[0].fd) : nullptr;
    if (c) block_on((p[0].events & POLLIN) ? c->rxq : c->txq, (p[0].events & POLLIN) ? "recv" : "send", dl);
    else if (n == 1 && ent(p[0].fd) && ent(p[0].fd)->kind == K_LISTEN) block_on(g_acceptq, "accept", dl);
    else { u64 w = 10 * MS; if (dl && dl - g_now < w) w = dl - g_now; sleep_for(w, "poll"); }
  }
}
int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  std::vector<struct pollfd> v;
  for (int i = 0; i < nfds; i++) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e) v.push_back({i, e, 0}); }
  int k = sim_poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  for (auto &p : v) { if (r && (p.revents & (POLLIN | POLLHUP | POLLERR)) && (p.events & POLLIN)) FD_SET(p.fd, r); if (w && (p.revents & POLLOUT)) FD_SET(p.fd, w); }
  return k;
}
}
int fd_dup_check(int fd) { return ent(fd) ? 1 : 0; }
size_t backlog_size() { return g_backlog.size(); }
Thread *acceptor_thread() { return g_acceptor; }
void fd_mark_raw(int fd) { FdEnt *e = ent(fd); if (e) e->raw = true; }
