// TLS: the server runs real OpenSSL over a BIO on the simulated socket; clients are event driven real OpenSSL clients.
#include "sim.h"
#include "vfs.h"
#include <cerrno>
#include <fcntl.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <sys/socket.h>

#define SITE ((uintptr_t)__builtin_return_address(0))
int g_ssl_live = 0;
static u64 g_tls_rand = 1;
static int r_bytes(unsigned char *b, int n) { Rng r(g_tls_rand); for (int i = 0; i < n; i++) b[i] = (unsigned char)(r.next() >> 24); g_tls_rand = r.next(); return 1; }
static int r_status() { return 1; }
static RAND_METHOD g_rm = {nullptr, r_bytes, nullptr, nullptr, r_bytes, r_status};
static BIO_METHOD *g_bm;
static SSL_CTX *g_cctx;
struct BD { int fd; bool eof; };
static int b_read(BIO *b, char *p, int n) {
  BD *d = (BD *)BIO_get_data(b);
  BIO_clear_retry_flags(b);
  errno = 0;
  ssize_t r = net_recv(d->fd, p, n, 0, 0);
  if (r < 0 && (errno == EINTR || errno == EAGAIN)) BIO_set_retry_read(b);
  if (r == 0) d->eof = true;
  return (int)r;
}
static int b_write(BIO *b, const char *p, int n) {
  BD *d = (BD *)BIO_get_data(b);
  BIO_clear_retry_flags(b);
  errno = 0;
  ssize_t r = net_send(d->fd, p, n, 0, 0);
  if (r < 0 && (errno == EINTR || errno == EAGAIN)) BIO_set_retry_write(b);
  return (int)r;
}
static long b_ctrl(BIO *b, int cmd, long, void *p) {
  BD *d = (BD *)BIO_get_data(b);
  switch (cmd) {
  case BIO_CTRL_FLUSH: case BIO_CTRL_DUP: return 1;
  case BIO_CTRL_EOF: return d && d->eof;
  case BIO_C_GET_FD: if (p) *(int *)p = d->fd; return d->fd;
  }
  return 0;
}
static int b_destroy(BIO *b) { delete (BD *)BIO_get_data(b); BIO_set_data(b, nullptr); return 1; }
void tls_global_init() {
  OPENSSL_init_ssl(0, nullptr);
  RAND_set_rand_method(&g_rm);
  g_bm = BIO_meth_new(BIO_TYPE_SOURCE_SINK | BIO_get_new_index(), "sim");
  BIO_meth_set_read(g_bm, b_read); BIO_meth_set_write(g_bm, b_write); BIO_meth_set_ctrl(g_bm, b_ctrl); BIO_meth_set_destroy(g_bm, b_destroy);
  g_cctx = SSL_CTX_new(TLS_client_method());
  SSL_CTX_set_verify(g_cctx, SSL_VERIFY_NONE, nullptr);
  SSL_CTX_set_mode(g_cctx, SSL_MODE_ENABLE_PARTIAL_WRITE);
}
void tls_seed(u64 s) { g_tls_rand = s * 77 + 5; }
extern "C" {
int sim_SSL_set_fd(SSL *s, int fd) {
  BIO *b = BIO_new(g_bm);
  BIO_set_data(b, new BD{fd, false}); BIO_set_init(b, 1);
  SSL_set_bio(s, b, b);
  return 1;
}
int sim_SSL_get_fd(const SSL *s) { BIO *b = SSL_get_rbio(s); return b ? ((BD *)BIO_get_data(b))->fd : -1; }
static void took(SSL *s, size_t k) {
  Conn *c = conn_of_fd(sim_SSL_get_fd(s)); if (!c) return;
  c->plain_log.push_back({(c->plain_log.empty() ? 0 : c->plain_log.back().first) + k, g_now});
}
int sim_SSL_read(SSL *s, void *b, int n) { int r = SSL_read(s, b, n); if (r > 0) took(s, r); return r; }
int sim_SSL_read_ex(SSL *s, void *b, size_t n, size_t *k) { int r = SSL_read_ex(s, b, n, k); if (r > 0) took(s, *k); return r; }
static int g_ssl_news = 0;
SSL *sim_SSL_new(SSL_CTX *c) {
  g_ssl_news++;
  if (g_faults_on) for (auto &f : g_sc->faults) if (f.kind == "sslnew" && f.off == g_ssl_news) { count("fault.SSL_new"); ev("SSL_new fails"); if (g_cur->conn) g_cur->conn->fault_files++; return nullptr; }
  SSL *s = SSL_new(c); if (s) g_ssl_live++; return s; }
void sim_SSL_free(SSL *s) { if (s) g_ssl_live--; SSL_free(s); }
SSL_CTX *sim_SSL_CTX_new(const SSL_METHOD *m) {
  if (g_faults_on) for (auto &f : g_sc->faults) if (f.kind == "startup" && f.op == "sslctx") { count("fault.startup.sslctx"); return nullptr; }
  return SSL_CTX_new(m);
}
ssize_t sim_read(int, void *, size_t);
int sim_open(const char *, int, ...);
int sim_close(int);
static bool slurp(const char *path, std::string &out) {
  int fd = sim_open(path, O_RDONLY, 0); if (fd < 0) return false;
  char b[2048]; ssize_t k;
  while ((k = sim_read(fd, b, sizeof b)) > 0) out.append(b, k);
  sim_close(fd);
  return k == 0;
}
int sim_SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *path) {
  std::string s; if (!slurp(path, s)) return 0;
  BIO *b = BIO_new_mem_buf(s.data(), (int)s.size());
  X509 *x = PEM_read_bio_X509_AUX(b, nullptr, nullptr, nullptr);
  int r = 0;
  if (x) {
    r = SSL_CTX_use_certificate(c, x); X509_free(x); SSL_CTX_clear_chain_certs(c);
    while ((x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr))) SSL_CTX_add0_chain_cert(c, x);
    ERR_clear_error();
  }
  BIO_free(b); return r;
}
int sim_SSL_CTX_use_certificate_file(SSL_CTX *c, const char *path, int) { return sim_SSL_CTX_use_certificate_chain_file(c, path); }
int sim_SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *path, int) {
  std::string s; if (!slurp(path, s)) return 0;
  BIO *b = BIO_new_mem_buf(s.data(), (int)s.size());
  EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b);
  if (!k) return 0;
  int r = SSL_CTX_use_PrivateKey(c, k); EVP_PKEY_free(k); return r;
}
}

// ---------- client ----------
struct TlsClient {
  SSL *ssl = nullptr; BIO *in = nullptr, *out = nullptr;
  std::string pending; size_t would = 0;
  std::vector<std::pair<size_t, std::string>> chunks; // wire offset of the end of the record(s), plaintext
  bool up = false, dead = false; std::string inject;
};
static void flush(Conn *c) {
  TlsClient *t = c->tls; char b[4096]; int k;
  std::string o;
  while ((k = BIO_read(t->out, b, sizeof b)) > 0) o.append(b, k);
  if (o.empty()) return;
  t->would += o.size();
  client_raw_send(c, o);
  while (!t->chunks.empty() && t->chunks.front().first <= c->wire_sent) { c->sent_by_client += t->chunks.front().second; t->chunks.erase(t->chunks.begin()); }
  if (t->up && c->tls_finished_off < 0) c->tls_finished_off = t->would;
  if (c->tls_finished_off >= 0 && (int64_t)c->wire_sent >= c->tls_finished_off) c->tls_established = true;
}
static void put(Conn *c, const std::string &p) {
  TlsClient *t = c->tls;
  size_t i = 0;
  while (i < p.size()) {
    int k = SSL_write(t->ssl, p.data() + i, (int)(p.size() - i));
    if (k <= 0) { t->dead = true; return; }
    size_t pend = BIO_ctrl_pending(t->out);
    t->chunks.push_back({t->would + pend, p.substr(i, k)});
    i += k;
    flush(c);
  }
}
void tls_client_inject(Conn *c, const std::string &p) {
  TlsClient *t = c->tls; if (!t || c->tls_injected) return;
  if (!t->up) { t->inject = p; return; }
  // whatever follows is not a part of the session any more
  flush(c); client_raw_send(c, p); t->would += p.size(); c->tls_injected = true;
  count("fault.tls_plain_bytes"); ev("client %d sends %zu plain bytes", c->id, p.size());
}
static void pump(Conn *c) {
  TlsClient *t = c->tls;
  if (t->dead) return;
  if (!t->up) {
    int r = SSL_do_handshake(t->ssl);
    if (r == 1) {
      t->up = true; if (BIO_ctrl_pending(t->out) == 0) c->tls_finished_off = t->would;
      flush(c); ev("client %d TLS up", c->id); count("tls_handshakes");
      if (c->tls_finished_off >= 0 && (int64_t)c->wire_sent >= c->tls_finished_off) c->tls_established = true;
      std::string p = t->pending; t->pending.clear(); put(c, p);
      if (!t->inject.empty()) { p = t->inject; t->inject.clear(); tls_client_inject(c, p); }
    } else {
      int e = SSL_get_error(t->ssl, r);
      flush(c);
      if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { t->dead = true; c->tls_error = true; at(g_now + 100 * US, [c] { client_close(c); }); return; }
    }
  }
  if (t->up) {
    char b[8192];
    for (;;) {
      int r = SSL_read(t->ssl, b, sizeof b);
      if (r > 0) { c->plain_rx.append(b, r); continue; }
      int e = SSL_get_error(t->ssl, r);
      if (e == SSL_ERROR_ZERO_RETURN) c->tls_close_notify = true;
      else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE && !c->tls_error) { c->tls_error = true; }
      break;
    }
    flush(c);
  }
  ERR_clear_error();
}
void tls_client_start(Conn *c) {
  TlsClient *t = c->tls = new TlsClient;
  t->ssl = SSL_new(g_cctx); t->in = BIO_new(BIO_s_mem()); t->out = BIO_new(BIO_s_mem());
  BIO_set_mem_eof_return(t->in, -1); BIO_set_mem_eof_return(t->out, -1);
  SSL_set_bio(t->ssl, t->in, t->out);
  SSL_set_connect_state(t->ssl);
  pump(c);
}
void tls_client_input(Conn *c, const std::string &w, bool eof) {
  TlsClient *t = c->tls; if (!t) return;
  if (!w.empty()) BIO_write(t->in, w.data(), (int)w.size());
  if (!w.empty()) pump(c);
  if (eof && !t->up && !c->client_gone) at(g_now + 100 * US, [c] { client_close(c); });
}
void tls_client_write(Conn *c, const std::string &p) {
  TlsClient *t = c->tls; if (!t || t->dead || c->tls_injected) return;
  if (!t->up && !t->inject.empty()) return;
  if (!t->up) t->pending += p; else put(c, p);
}
void tls_client_shutdown(Conn *c) { TlsClient *t = c->tls; if (!t || t->dead || !t->up) return; SSL_shutdown(t->ssl); flush(c); ERR_clear_error(); }
const std::string &conn_plain(Conn *c) { return c->tls ? c->plain_rx : c->tx; }
