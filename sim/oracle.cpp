// Application callbacks, phases of a run and the property checks.
#include "happ.h"
#include "model.h"
#include "result.h"
#include "vfs.h"
#include <algorithm>
#include <cmath>
#include <ctime>
#include <unordered_map>
#include <openssl/evp.h>

const Scenario *g_sc = nullptr;
int g_epoch = 0;
bool g_exited = false; int g_exit_code = 0; static std::string g_exit_how;
bool g_idle_seen = false;
static int g_phase = 0, g_round = 0;
static std::vector<HeapStat> g_round_heap; static std::vector<u64> g_round_seq;
static std::string g_base_log, g_base_diag;
static bool g_conf_done = false;
std::vector<std::pair<u64, int64_t>> g_wall_hist; // time, offset
static const char *ACCESS = "/var/log/wayuu-access.log";
// The access log and the files it was renamed to when it was rotated, oldest first
static std::vector<std::string> access_files() { std::vector<std::string> v; for (int i = 1;; i++) { std::string n = strf("%s.%d", ACCESS, i), d; if (!vfs_get(n, d)) break; v.push_back(n); } v.push_back(ACCESS); return v; }
static std::string access_log() { std::string all, d; for (auto &n : access_files()) if (vfs_get(n, d)) all += d; return all; }
static std::map<std::string, u64> g_rotated;
void oracle_rotate() { std::string d; if (!vfs_get(ACCESS, d)) return; std::string n = strf("%s.%zu", ACCESS, access_files().size()); vfs_move(ACCESS, n); g_rotated[n] = g_now; count("admin_rotates_log"); ev("admin rotates the access log to %s", n.c_str()); }
struct Ver { bool ex; std::string data; };
static std::vector<Ver> versions(const std::string &p, u64 a, u64 b) {
  std::vector<Ver> v; Ver cur{false, ""}; bool have = false;
  auto h = vfs_history(p);
  for (auto &x : h) {
    if (x.t <= a) { cur = {x.exists, x.data}; have = true; }
    else if (x.t <= b) { if (!have || v.empty()) v.push_back(cur); have = true; v.push_back({x.exists, x.data}); }
  }
  if (v.empty()) v.push_back(cur);
  return v;
}
static std::string www() { return g_sc->root + "/www"; }

// ---------- application callbacks ----------
struct Mark { int level; std::string text; u64 t0, t1; };
static std::vector<Mark> g_marks;
static std::map<int, std::vector<std::string>> g_conf_items;
struct ConfRes { int job; bool write; int rc; std::string content; bool exists; };
static std::vector<ConfRes> g_conf_res;
static HandlerObs *cur_obs() { Conn *c = g_cur->conn; return c && !c->obs.empty() ? &c->obs.back() : nullptr; }
static std::string S(const char *p) { return p ? std::string(p) : std::string(); }
extern "C" {
void H_begin(int kind, int route, const char *method, const char *path, const char *query, const char *form, const char *session,
             const char *ip, const char *url, const char *ctype, const char *reqline) {
  Conn *c = g_cur->conn;
  HandlerObs o; o.kind = kind; o.route = route; o.t = g_now;
  o.method = S(method); o.path = S(path); o.query = S(query); o.form = S(form); o.session = S(session); o.ip = S(ip); o.url = S(url); o.ctype = S(ctype); o.reqline = S(reqline);
  if (!c) { violation("C02", "handler-without-connection", "a handler runs on a thread that serves no connection"); static Conn dummy; g_cur->conn = c = &dummy; }
  o.rx_at = c->tls ? c->sent_by_client.size() : c->rx_off;
  ev("%s route %d for client %d", kind ? "handler" : "filter", route, c->id);
  count(kind ? "handler_runs" : "filter_runs");
  g_last_progress = g_now;
  c->obs.push_back(o);
}
void H_header(const char *n, const char *v) { HandlerObs *o = cur_obs(); if (o) { o->headers.push_back({std::string(n, strnlen(n, 64)), std::string(v, strnlen(v, 256))}); o->n_headers++; } }
void H_end(int, int result) { HandlerObs *o = cur_obs(); if (o) { o->t_end = g_now; o->ended = true; o->filter_result = result; } }
static int qint(const std::string &q, const char *k, int d) {
  std::string key = std::string(k) + "="; size_t p = 0;
  while (p < q.size()) { if (q.compare(p, key.size(), key) == 0) return atoi(q.c_str() + p + key.size()); p = q.find('&', p); if (p == std::string::npos) break; p++; }
  return d;
}
void H_params(int kind, int route, const char *query, struct hparams *p) {
  memset(p, 0, sizeof *p);
  std::string q = S(query);
  p->kind = route >= 0 && route < (int)g_sc->routes.size() ? g_sc->routes[route].handler : 0;
  p->size = std::min(std::max(qint(q, "s", 10), 0), 300000);
  p->status = qint(q, "st", 200);
  static const int ok[] = {200, 201, 400, 401, 403, 404, 429, 500};
  if (std::find(std::begin(ok), std::end(ok), p->status) == std::end(ok) && !(p->kind == 1 || p->kind == 3 || p->kind == 6)) p->status = 200;
  p->work = std::min(std::max(qint(q, "w", 0), 0), 20000000);
  p->marks = std::min(std::max(qint(q, "m", 0), 0), 12);
  int f = route >= 0 && route < (int)g_sc->routes.size() ? g_sc->routes[route].filter : 0;
  p->reject = f == 2 ? qint(q, "rj", 0) : 0;
  std::string t = "x";
  size_t a = q.compare(0, 2, "t=") == 0 ? 2 : std::string::npos;
  if (a != std::string::npos) { t = q.substr(a, std::min(q.find('&', a), q.size()) - a); }
  for (auto &c : t) if (!isalnum((unsigned char)c)) c = '_';
  snprintf(p->token, sizeof p->token, "%.40s", t.c_str());
  snprintf(p->file, sizeof p->file, "f%d%s", qint(q, "fl", 0) & 15, (const char *[]){".txt", ".html", ".css", ".svg", ".yaml", ".csv", ".json", ".txt"}[qint(q, "fl", 0) & 7]);
  (void)kind;
}
void H_expect(int status, const char *ctype, const char *body, long len, int has_cl, int logs) {
  Conn *c = g_cur->conn; if (!c) return;
  Expect e; e.set = true; e.status = status; e.ctype = S(ctype); e.body.assign(body, len); e.has_cl = has_cl; e.logs = logs; e.t = g_now;
  c->expects.push_back(e);
}
void H_expect_file(const char *path) {
  Conn *c = g_cur->conn; if (!c) return;
  Expect e; e.set = true; e.file = path; e.t = g_now; e.status = 200;
  HandlerObs *o = cur_obs(); int kind = o ? g_sc->routes[o->route].handler : 9;
  if (kind == 3) { struct hparams p; H_params(1, o->route, o->query.c_str(), &p); e.status = p.status; e.stream = true; e.ctype = "application/json"; }
  c->expects.push_back(e);
}
void H_work(int us) { sleep_for((u64)us * US, "work"); }
void H_mark(int level, const char *text, int enter) { if (enter) g_marks.push_back({level, text, g_now, 0}); else for (auto i = g_marks.rbegin(); i != g_marks.rend(); ++i) if (i->text == text) { i->t1 = g_now; break; } }
void H_tmpfile(const char *name, int stage) {
  HandlerObs *o = cur_obs(); if (!o) return;
  std::string d; bool ok = vfs_get(std::string("/tmp/wayuu/") + name, d);
  if (stage == 0) count("uploads_seen");
  o->tmp.push_back({name, ok ? "=" + d : "-"});
}
void H_body(const char *token, int size, int text, char *out) {
  u64 h = 1469598103934665603ull; for (const char *p = token; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  Rng r(h + size);
  for (int i = 0; i < size; i++) out[i] = text ? "abcdefghijklmnopqrstuvwxyz0123456789"[r.below(36)] : (char)r.below(256);
  out[size] = 0;
}
void H_helper(const char *name, int ok, const char *got, const char *want) {
  count("helper_calls");
  if (!ok) violation("C24", strf("wrong-%s", name), strf("%s gives %s instead of %s", name, show(got, 200).c_str(), show(want, 200).c_str()));
}
void H_md5(const char *data, int len, char *out) { unsigned char d[64]; unsigned n = 0; EVP_Digest(data, len, d, &n, EVP_md5(), nullptr); for (unsigned i = 0; i < n; i++) sprintf(out + 2 * i, "%02x", d[i]); }
void H_file_read(const char *path, const char *got, long len, long maxlen) {
  Conn *c = g_cur->conn; count("helper_calls");
  HandlerObs *o = cur_obs();
  bool faulted = c && c->fault_files, ok = false;
  auto v = versions(path, o ? o->t : 0, g_now);
  std::string g(got, len), want;
  for (auto &x : v) {
    std::string w = x.ex ? x.data : ""; if (maxlen > 0 && (long)w.size() > maxlen - 1) w.resize(maxlen - 1);
    w = w.substr(0, w.find('\0')); want = w;
    if (g == w || ((faulted || v.size() > 1) && w.compare(0, g.size(), g) == 0)) ok = true;
  }
  if (!ok) violation("C24", "wrong-read-file", strf("read_file of %s (at most %ld) gives %ld bytes %s instead of %zu bytes %s", path, maxlen, len, show(g, 60).c_str(), want.size(), show(want, 60).c_str()));
}
static std::map<std::string, std::string> g_written; // content of the last successful write_file of a path
void H_file_written(const char *path, int result, const char *data, int len) {
  Conn *c = g_cur->conn; count("helper_calls");
  std::string d, w(data, len); bool ex = vfs_get(path, d);
  if (result && (!ex || d != w)) violation("C24", "wrong-write-file", strf("write_file of %s reports success but the file has %zu bytes %s instead of %d bytes %s", path, d.size(), show(d, 60).c_str(), len, show(w, 60).c_str()));
  if (result) g_written[path] = w;
  if (!result && !(c && c->fault_files)) violation("C24", "spurious-write-file", strf("write_file of %s fails although nothing went wrong", path));
  if (!result) {
    count("write_file_failed");
    bool unl = false; for (auto &x : g_sc->faults) if (x.kind == "file" && x.op == "unlink") unl = true;
    // a file that could not even be opened keeps its earlier content
    auto old = g_written.find(path);
    if (ex && !unl && !(old != g_written.end() && old->second == d)) violation("C24", "partial-write-file", strf("write_file of %s fails but leaves a file of %zu bytes", path, d.size()));
  }
}
void H_got_header(const char *, const char *v) { HandlerObs *o = cur_obs(); if (o) { o->got_header = S(v); o->got_header_set = true; } }
void H_conf_write(int job, int rc) { std::string d; bool e = vfs_get(g_sc->jobs[job].path, d); g_conf_res.push_back({job, true, rc, d, e}); g_conf_items[job].clear(); count("conf_writes"); }
void H_conf_read_item(int job, const char *k, const char *v, int n, char *const *m) {
  std::string s = S(k) + "=";
  if (n == 0) s += S(v); else for (int i = 0; i < n; i++) s += (i ? "," : "") + S(m[i]);
  g_conf_items[job].push_back(s);
}
void H_conf_read(int job, int rc) { std::string d; bool e = vfs_get(g_sc->jobs[job].path, d); g_conf_res.push_back({job, false, rc, d, e}); count("conf_reads"); }
int H_job_type(int j) { return g_sc->jobs[j].type; }
int H_job_delay(int j) { return (int)g_sc->jobs[j].delay; }
const char *H_job_path(int j) { return g_sc->jobs[j].path.c_str(); }
int H_job_n(int j) { return (int)g_sc->jobs[j].items.size(); }
const char *H_job_item(int j, int i) { return g_sc->jobs[j].items[i].c_str(); }
int H_njobs(void) { return (int)std::min<size_t>(64, g_sc->jobs.size()); }
int H_nroutes(void) { return (int)g_sc->routes.size(); }
const char *H_route_template(int i) { return g_sc->routes[i].tmpl.c_str(); }
int H_route_filter(int i) { return g_sc->routes[i].filter; }
void H_raw(int, int stage) {
  Conn *c = g_cur->conn;
  ev("raw handler %d client %d", stage, c ? c->id : -1);
  count("raw_handler");
}
const char *H_root(void) { return g_sc->root.c_str(); }
int H_tls(void) { return g_sc->tls; }
int H_debug(void) { return g_sc->debug; }
int H_rawhandler(void) { return g_sc->rawhandler; }
int H_logfile(void) { return (int)g_sc->o("logfile", 0); }
}

// ---------- helpers ----------
struct J { Req r; Resp p; bool full = false, partial = false; std::string rx; };
static std::unordered_map<Conn *, J> g_j;
static u64 endt(Conn *c) { return c->t_worker_idle ? c->t_worker_idle : g_now; }
static std::string cname(Conn *c) { return c->probe ? strf("probe %d", c->idx) : strf("client %d", c->id); }
static std::vector<Rule> rules() {
  static bool init = false; static std::vector<Rule> r;
  if (!init) { init = true; auto v = vfs_history(g_sc->root + "/etc/limits"); if (!v.empty() && v[0].exists) r = parse_rules(v[0].data); }
  return r;
}
static bool accept_closed(Conn *c) { return c->closed && c->closed_by == -1 && !c->dispatched; }
static size_t queued_before(Conn *c, u64 t) {
  size_t n = 0;
  for (auto &o : g_conns) if (o.get() != c && o->accepted && o->accept_seq < c->accept_seq && (!o->dispatched || o->t_dispatch > t) && (!o->closed || o->t_close > t)) n++;
  return n;
}
static u64 line_time(Conn *c, const Req &r) {
  for (auto &x : c->tls ? c->plain_log : c->recv_log) if (x.first >= r.line_end) return x.second;
  return 0;
}
static bool log_faulted(const char *path) { return vfs_file_faulted(path, 0, ~0ull); }

// admission: what the lists say about this connection
static void admission(Conn *c, bool &can_allow, bool &can_deny) {
  can_allow = can_deny = false;
  u64 b = accept_closed(c) ? c->t_close : c->dispatched ? c->t_dispatch : g_now;
  auto dv = versions(g_sc->root + "/etc/deny", c->t_accept, b), av = versions(g_sc->root + "/etc/allow", c->t_accept, b);
  for (auto &d : dv) for (auto &a : av) {
    bool ok = !(d.ex && list_has(d.data, c->ip)) && (!a.ex || list_has(a.data, c->ip));
    (ok ? can_allow : can_deny) = true;
  }
}
static bool list_has_any(const std::string &path, Conn *c) {
  for (auto &v : versions(path, c->t_accept, c->dispatched ? c->t_dispatch : g_now)) if (v.ex && list_has(v.data, c->ip)) return true;
  return false;
}
static bool limit_secs(Conn *c, const Req &r, int64_t &secs) {
  secs = 0;
  if (!r.line) return false;
  for (auto &x : rules()) if (x.secs > 0 && istarts(r.url, x.path)) secs = secs ? std::min(secs, x.secs) : x.secs;
  (void)c;
  return secs > 0;
}
static bool limit_dropped(Conn *c, const Req &r) {
  int64_t s;
  if (!limit_secs(c, r, s)) return false;
  u64 e = c->closed ? c->t_close : g_now;
  return c->shut_by_other || e >= c->t_accept + (u64)s * SEC;
}

// ---------- idle instants ----------
static u64 g_last_idle_check = 0;
void oracle_idle_instant() {
  g_idle_seen = true;
  if (g_conns.empty() || !g_accepting || g_sc->mode != "server") return;
  // some worker waits although an admitted connection is not being served?
  int waiting = 0; bool odd = false;
  for (auto t : g_threads) {
    if (t->st == T_BLOCKED && (!strcmp(t->why, "cond") || !strcmp(t->why, "sem"))) { if (!t->conn) waiting++; }
    else if (t->st == T_BLOCKED && !strcmp(t->why, "stall")) odd = true;
    else if (t->st == T_BLOCKED && !strcmp(t->why, "work") && !t->conn) odd = true;
    else if (t->st == T_BLOCKED && !strcmp(t->why, "mutex")) odd = true;
    else if (t->st == T_UNSTARTED && t->eager) odd = true;
  }
  if (odd) return;
  Conn *first = nullptr;
  static size_t lo = 0; // connections below are settled
  while (lo < g_conns.size() && (g_conns[lo]->dispatched || g_conns[lo]->closed)) lo++;
  int64_t maxseq = -1;
  for (auto &o : g_conns) if (o->dispatched) maxseq = std::max(maxseq, o->accept_seq);
  for (size_t i = lo; i < g_conns.size(); i++) {
    Conn *c = g_conns[i].get();
    if (!c->accepted || c->dispatched || c->closed || c->accept_peer_reset) continue;
    if (acceptor_thread() && acceptor_thread()->accepting == c && acceptor_thread()->st != T_DONE && strcmp(acceptor_thread()->why, "accept")) continue;
    if (maxseq > c->accept_seq) { c->accept_peer_reset = true; violation("C02", "not-in-order", strf("%s (accepted as number %lld) is still not served although a connection accepted later is", cname(c).c_str(), (long long)c->accept_seq)); }
    if (!first) first = c;
  }
  if (waiting && first) {
    violation("C02", "lost-wakeup", strf("%s waits in the queue although %d worker(s) are idle", cname(first).c_str(), waiting));
    for (auto &o : g_conns) if (o->accepted && !o->dispatched) o->accept_peer_reset = true;
  }
  (void)g_last_idle_check;
}

// ---------- response judgement ----------
struct Alt { int status; std::string ctype; bool ctype_known; std::string body; bool any_body; bool logs; };
static bool body_ok(const std::string &got, const Alt &a) { return a.any_body || got == a.body || got == a.body + "\r\n"; }
static bool prefix_ok(const std::string &got, const Alt &a) { std::string f = a.body + "\r\n"; return a.any_body || (got.size() <= f.size() && f.compare(0, got.size(), got) == 0); }

static void judge(Conn *c) {
  J &j = g_j[c];
  const std::string &tx = conn_plain(c);
  std::string name = cname(c);
  bool tls_bad = g_sc->tls && !c->tls_established;
  j.full = c->closed && !c->broken && c->tx_delivered == c->tx.size() && !limit_dropped(c, j.r) && !tls_bad && !c->tls_error && !c->closed_by_crash;
  j.partial = !j.full;
  if (g_sc->rawhandler) {
    if (j.full && j.r.line && !accept_closed(c)) { std::string w = "RAW " + j.rx.substr(0, j.r.line_end); if (w.size() < 300 && tx != w) violation("C02", "raw-handler", strf("%s got %s instead of its echo", name.c_str(), show(tx).c_str())); }
    return;
  }
  if (tls_bad) return;
  if (tx.find("SECRET-") != std::string::npos) {
    size_t k = tx.find("SECRET-");
    violation("C14", "outside-file-sent", strf("%s requested %s and received content of a file outside the web root: %s", name.c_str(), show(j.r.url.empty() ? j.rx : j.r.url).c_str(), show(tx.substr(k, 60)).c_str()));
  }
  j.p = parse_resp(tx, j.partial);
  if (!j.p.err.empty()) { violation("C05", "malformed-response", strf("%s (request %s): %s", name.c_str(), show(j.r.reqline).c_str(), j.p.err.c_str())); return; }
  const Resp &p = j.p;
  // X-Session echoed to a client is that client's own session
  if (auto xs = p.get("X-Session")) if (j.r.head && j.r.session_mode == 0 && j.r.canon && *xs != j.r.session) violation("C01", "session-echo", strf("%s sent session %s but the response carries %s", name.c_str(), show(j.r.session).c_str(), show(*xs).c_str()));
  if (p.head && p.has_cl) {
    if (j.full && (int64_t)p.body.size() != p.cl) violation("C05", "content-length", strf("%s: Content-Length %lld but %zu body bytes", name.c_str(), (long long)p.cl, p.body.size()));
    if (!j.full && (int64_t)p.body.size() > p.cl) violation("C05", "content-length", strf("%s: more body bytes than the Content-Length %lld", name.c_str(), (long long)p.cl));
  }
  // what should it be?
  std::vector<Alt> alts; const char *prop = "C05", *bprop = "C05"; bool optional = false; std::string why;
  bool handled = !c->obs.empty();
  u64 a = c->t_dispatch, b = c->closed ? c->t_close : g_now;
  if (handled) {
    if (c->expects.empty()) { if (j.full && p.any && !c->obs.back().ended) return; if (j.full && p.any && c->obs.back().kind == 1) violation("C05", "unasked-response", strf("%s received %s although the handler sent nothing", name.c_str(), show(tx).c_str())); return; }
    why = "the response the handler gave";
    for (auto &e : c->expects) {
      if (e.file.empty()) { alts.push_back({e.status, e.ctype, !e.ctype.empty(), e.body, false, e.logs}); continue; }
      bprop = "C15";
      for (auto &v : versions(e.file, a, b)) {
        if (!v.ex) continue;
        bool k; std::string ct = ctype_of(e.file, k);
        if (e.stream) { ct = "application/json"; k = true; }
        alts.push_back({e.status, ct, k, v.data, false, true});
      }
      if (c->faulted_paths.count(e.file)) { optional = true; alts.push_back({404, "", false, "", false, true}); alts.push_back({500, "", false, "", false, true}); if (e.stream) alts.push_back({e.status, "", false, "", true, true}); }
    }
    bool hasfile = false; for (auto &e : c->expects) if (!e.file.empty()) hasfile = true;
    if (hasfile) { bool gone = false; for (auto &e : c->expects) if (!e.file.empty()) for (auto &v : versions(e.file, a, b)) if (!v.ex) gone = true; if (gone) { alts.push_back({404, "", false, "", false, true}); alts.push_back({500, "", false, "", false, true}); } }
    if (hasfile) { // growing or shrinking files may also fail
      if (versions(c->expects[0].file, a, b).size() > 1) { optional = true; alts.push_back({404, "", false, "", false, true}); alts.push_back({500, "", false, "", false, true}); }
      if (c->expects[0].stream && versions(c->expects[0].file, a, b).size() > 1) alts.push_back({c->expects[0].status, "", false, "", true, true});
    }
  } else {
    if (!j.r.canon_line) return;
    if (p.status == 429 && j.r.known_method) { alts.push_back({429, "", false, "", false, true}); why = "a refusal"; }
    else if (!j.r.known_method) { alts.push_back({400, "", false, "", false, true}); why = "400 for an unknown method"; }
    else {
      if (!j.r.canon || !j.r.complete) return;
      if (j.r.api) {
        std::string pn, pv; int rt = route_of(*g_sc, j.r.method, j.r.path, pn, pv);
        if (rt < 0) { alts.push_back({400, "", false, "", false, true}); prop = "C16"; why = "400 because no route matches"; if (c->fault_alloc) { optional = true; alts.push_back({500, "", false, "", false, true}); } }
        else {
          if (c->fault_files || !j.full) return;
          std::string d = strf("%s: no handler ran for %s (route %s), answer %s", name.c_str(), show(j.r.reqline).c_str(), g_sc->routes[rt].tmpl.c_str(), show(tx, 60).c_str());
          violation("C16", "handler-not-run", d); violation("C01", "handler-not-run", d);
          return;
        }
      } else {
        if (j.r.method != "GET") { alts.push_back({400, "", false, "", false, true}); prop = "C15"; why = "400 because only GET applies to a static file"; goto judged; }
        {
        prop = bprop = "C15";
        std::string path = j.r.path, target;
        bool dots = false; { std::string s = path + "/"; if (s.find("/../") != std::string::npos) dots = true; }
        if (path == "/" || path == "/index.html") target = www() + "/index.html";
        else if (path == "/favicon.ico") target = www() + "/favicon.ico";
        else if (path.back() == '/') target = www() + path + "index.html";
        else target = www() + path;
        std::string norm = vfs_norm(target), idx = www() + "/index.html";
        bool inside = norm.compare(0, www().size() + 1, www() + "/") == 0;
        bool k; std::string ct = ctype_of(target, k);
        bool gone = false, igone = false, some = false;
        auto tv = versions(norm, a, b), iv = versions(idx, a, b);
        if (inside && target.size() < 700) for (auto &v : tv) { if (v.ex) { alts.push_back({200, ct, k, v.data, false, true}); some = true; } else gone = true; }
        if (!inside || !some) gone = true;
        // a component that is not a directory, or a name that is too long, is just a missing file
        if (gone || dots) { for (auto &v : iv) { if (v.ex) alts.push_back({200, "text/html", true, v.data, false, true}); else igone = true; } }
        if (igone) alts.push_back({404, "", false, "", false, true});
        if (dots) for (int s : {400, 403, 404}) alts.push_back({s, "", false, "", false, true});
        if (c->faulted_paths.count(norm) || c->faulted_paths.count(idx) || tv.size() > 1 || iv.size() > 1) {
          optional = true;
          for (int s : {400, 403, 404, 500}) alts.push_back({s, "", false, "", false, true});
          // only a file that looks missing may be answered with the index page
          if (c->faulted_stats.count(norm)) for (auto &v : iv) if (v.ex) alts.push_back({200, "text/html", true, v.data, false, true});
        }
        if (c->fault_alloc) { optional = true; alts.push_back({500, "", false, "", false, true}); }
        why = "the file " + norm;
        }
      }
    }
  }
judged:
  if (j.full && !p.any) {
    // a file that cannot be read is answered with an error
    if (c->fault_files && !c->fault_alloc && !c->list_fault && !strcmp(bprop, "C15") && !handled) {
      std::string d = strf("%s: connection closed without any response to %s after a file operation failed", name.c_str(), show(j.r.reqline).c_str());
      violation("C05", "no-answer", d); violation("C15", "no-answer", d);
      return;
    }
    if (optional || c->fault_files) return;
    violation("C02", "no-answer", strf("%s: connection closed without any response to %s", name.c_str(), show(j.r.reqline.empty() ? j.rx : j.r.reqline).c_str()));
    std::string d = strf("%s: connection closed without any response to %s, expected %s", name.c_str(), show(j.r.reqline.empty() ? j.rx : j.r.reqline).c_str(), why.c_str());
    violation(prop, "no-answer", d); violation("C05", "no-answer", d);
    return;
  }
  if (!p.any || !p.status) return;
  bool st = false, ctok = false, bd = false;
  std::string exps;
  for (auto &x : alts) {
    if (exps.size() < 300) exps += strf("%s%d", exps.empty() ? "" : "/", x.status);
    if (p.status != x.status) continue;
    st = true;
    if (!p.head) return; // the headers are cut off
    bool c1 = true;
    if (x.ctype_known) { auto g = p.get("Content-Type"); c1 = g && (*g == x.ctype || g->compare(0, x.ctype.size() + 1, x.ctype + ";") == 0); }
    bool b1 = j.full ? body_ok(p.body, x) : prefix_ok(p.body, x);
    if (c1) ctok = true;
    if (b1) bd = true;
    if (c1 && b1) {
      // a file comes with the session of the client that asked for it
      bool isfile = handled ? !c->expects[0].file.empty() && !c->expects[0].stream : true;
      if (isfile && p.status == 200 && j.r.head && j.r.canon && j.r.session_mode == 0) {
        auto xs = p.get("X-Session"), sc = p.get("Set-Cookie"); std::string d; const std::string &ses = j.r.session;
        if (ses.empty() ? (xs && !xs->empty()) || sc : !xs || *xs != ses || !sc || (*sc != "WSSESSION=" + ses && sc->compare(0, 11 + ses.size(), "WSSESSION=" + ses + ";")))
          violation("C15", "session-headers", strf("%s: the file in answer to %s came with X-Session %s and Set-Cookie %s, the client's session is %s", name.c_str(), show(j.r.reqline).c_str(), xs ? show(*xs).c_str() : "(none)", sc ? show(*sc).c_str() : "(none)", show(ses).c_str()));
      }
      return;
    }
  }
  if (!st) violation(prop, "wrong-status", strf("%s: status %d for %s, expected %s (%s)", name.c_str(), p.status, show(j.r.reqline).c_str(), exps.c_str(), why.c_str()));
  else if (!ctok) { auto g = p.get("Content-Type"); violation(prop, "wrong-content-type", strf("%s: content type %s for %s", name.c_str(), g ? show(*g).c_str() : "(none)", show(j.r.reqline).c_str())); }
  else if (!bd) {
    std::string want = "?"; bool isprefix = false;
    for (auto &x : alts) if (x.status == p.status) { want = strf("%zu bytes %s", x.body.size(), show(x.body, 60).c_str()); if (p.body.size() < x.body.size() && x.body.compare(0, p.body.size(), p.body) == 0) isprefix = true; }
    std::string d = strf("%s: %s%zu body bytes %s, expected %s (%s)", name.c_str(), j.full ? "" : "broken connection, ", p.body.size(), show(p.body, 60).c_str(), want.c_str(), why.c_str());
    violation(bprop, "wrong-body", d);
    if (strcmp(bprop, "C05") && !c->fault_files) violation("C05", "wrong-body", d);
    (void)isprefix;
  } else violation(prop, "wrong-combination", strf("%s: status, content type and body of the answer to %s do not belong together", name.c_str(), show(j.r.reqline).c_str()));
}

// ---------- request fidelity, routing, uploads ----------
static void check_obs(Conn *c) {
  J &j = g_j[c];
  std::string name = cname(c);
  int nh = 0, nf = 0; bool rejected = false, filter_seen = false, filter_after = false;
  for (auto &o : c->obs) {
    if (o.kind == 0) { nf++; filter_seen = true; if (nh) filter_after = true; if (o.ended && !o.filter_result) rejected = true; }
    else {
      nh++;
      if (rejected) violation("C16", "handler-after-reject", strf("%s: handler of route %d ran although the filter rejected the request", name.c_str(), o.route));
      if (o.route >= 0 && o.route < (int)g_sc->routes.size() && g_sc->routes[o.route].filter && !filter_seen) violation("C16", "filter-skipped", strf("%s: handler of route %s ran without its filter", name.c_str(), g_sc->routes[o.route].tmpl.c_str()));
    }
  }
  if (nh > 1) violation("C16", "handler-twice", strf("%s: %d handlers ran for one request", name.c_str(), nh));
  if (nf > 1 || filter_after) violation("C16", "filter-order", strf("%s: filter ran %d times or after the handler", name.c_str(), nf));
  if (c->obs.empty()) return;
  if (g_sc->tls && !c->tls_established) violation("C17", "request-outside-tls", strf("%s: request %s was executed although the TLS handshake did not complete", name.c_str(), show(c->obs[0].reqline).c_str()));
  // completeness at the moment it ran
  for (auto &o : c->obs) {
    Req at = parse_req(j.rx.substr(0, std::min(o.rx_at, j.rx.size())), c->ip);
    if (at.incomplete && c->tls_injected) violation("C17", "plain-bytes-executed", strf("%s: %s ran for bytes that did not arrive in the TLS session (%s)", name.c_str(), o.kind ? "handler" : "filter", show(o.reqline).c_str()));
    if (at.incomplete) { violation("C06", "incomplete-executed", strf("%s: %s ran after only %zu bytes of an incomplete request (%s)", name.c_str(), o.kind ? "handler" : "filter", std::min(o.rx_at, j.rx.size()), show(j.rx.substr(0, o.rx_at), 200).c_str())); break; }
  }
  const Req &r = j.r;
  if (!r.canon || !r.complete) return;
  if (!r.api) { violation("C16", "handler-for-static", strf("%s: a handler ran for %s", name.c_str(), show(r.reqline).c_str())); return; }
  std::string pn, pv; int rt = route_of(*g_sc, r.method, r.path, pn, pv);
  for (auto &o : c->obs) {
    if (o.route != rt) violation("C16", "wrong-route", strf("%s: %s of route %s ran for %s:%s, expected %s", name.c_str(), o.kind ? "handler" : "filter", g_sc->routes[o.route].tmpl.c_str(), r.method.c_str(), show(r.path).c_str(), rt < 0 ? "none" : g_sc->routes[rt].tmpl.c_str()));
    auto cmp = [&](const char *f, const std::string &got, const std::string &want) {
      if (got != want) violation("C01", strf("wrong-%s", f), strf("%s: %s sees %s %s, the client sent %s", name.c_str(), o.kind ? "handler" : "filter", f, show(got).c_str(), show(want).c_str()));
    };
    cmp("method", o.method, r.method); cmp("url", o.url, r.url); cmp("path", o.path, r.path); cmp("query", o.query, r.query); cmp("request-line", o.reqline, r.reqline);
    if (r.ip_known) cmp("address", o.ip, r.ip);
    if (r.session_mode == 0) cmp("session", o.session, r.session);
    else if (r.session_mode == 1) { if (r.session.compare(0, o.session.size(), o.session)) cmp("session", o.session, r.session); }
    else if (r.session_mode == 2) { if (r.session.find(o.session) == std::string::npos) violation("C01", "foreign-session", strf("%s: session %s is not part of what the client sent", name.c_str(), show(o.session).c_str())); }
    if (r.has_ctype && r.ctype_known) cmp("content-type", trim_ws(o.ctype), r.ctype);
    size_t n = std::min<size_t>(20, r.headers.size());
    if (o.headers.size() < n) violation("C01", "headers-missing", strf("%s: %zu headers seen, %zu sent", name.c_str(), o.headers.size(), r.headers.size()));
    if (o.headers.size() > r.headers.size()) violation("C01", "headers-extra", strf("%s: %zu headers seen, %zu sent", name.c_str(), o.headers.size(), r.headers.size()));
    for (size_t i = 0; i < std::min(o.headers.size(), r.headers.size()); i++) {
      const auto &g = o.headers[i]; const auto &w = r.headers[i];
      bool nok = w.name.size() < 64 ? g.first == w.name : (g.first.size() < w.name.size() && w.name.compare(0, g.first.size(), g.first) == 0);
      bool vok = w.value.size() < 256 ? g.second == w.value : (g.second.size() < w.value.size() && w.value.compare(0, g.second.size(), g.second) == 0);
      if (!nok || !vok) { violation("C01", "wrong-header", strf("%s: header %zu is %s: %s, the client sent %s: %s", name.c_str(), i, show(g.first).c_str(), show(g.second, 300).c_str(), show(w.name).c_str(), show(w.value, 300).c_str())); break; }
    }
    if (o.got_header_set) { for (auto &h : r.headers) if (h.name == "X-Echo" && h.value.size() < 256 && r.headers.size() <= 20) { if (o.got_header != h.value) violation("C01", "wrong-header-lookup", strf("%s: http_get_header gives %s, sent %s", name.c_str(), show(o.got_header).c_str(), show(h.value).c_str())); break; } }
    // form
    std::string param = pn.empty() ? "" : pn + "=" + pv;
    if (!r.multipart && !r.ctype_known) {
      // more than one content type: which one counts is not specified
    } else if (!r.multipart) {
      std::string want = r.body.substr(0, r.body.find('\0'));
      if (!param.empty()) want = want.empty() && r.body.empty() ? param : want.empty() ? o.form : want + "&" + param;
      if (o.form != want) {
        std::string d = strf("%s: body seen %zu bytes %s, sent %zu bytes %s", name.c_str(), o.form.size(), show(o.form, 100).c_str(), want.size(), show(want, 100).c_str());
        if (!param.empty() && o.form.compare(0, r.body.size(), r.body) == 0) violation("C16", "wrong-parameter", d); else violation("C01", "wrong-body", d);
      }
    } else if (r.parts_canon) {
      // expected form: name=value | name=file&tmpfile=x, joined by &
      std::string rest = o.form, bad; std::vector<std::string> names; bool stored_all = true, nul = false;
      if (!param.empty()) { if (rest == param) rest = ""; else if (rest.size() > param.size() && rest.compare(rest.size() - param.size() - 1, std::string::npos, "&" + param) == 0) rest.resize(rest.size() - param.size() - 1); else violation("C16", "wrong-parameter", strf("%s: parameter %s missing in form %s", name.c_str(), param.c_str(), show(o.form).c_str())); }
      std::vector<std::string> toks; { size_t q = 0; while (q <= rest.size() && !rest.empty()) { size_t e = rest.find('&', q); toks.push_back(rest.substr(q, e == std::string::npos ? e : e - q)); if (e == std::string::npos) break; q = e + 1; } }
      size_t ti = 0;
      for (auto &pt : r.parts) {
        if (!pt.file) {
          if (pt.data.find('\0') != std::string::npos || pt.data.find('&') != std::string::npos) { nul = true; break; }
          std::string w = pt.name + "=" + pt.data;
          if (ti >= toks.size() || toks[ti] != w) { bad = strf("form field %s", show(w, 100).c_str()); break; }
          ti++;
        } else {
          std::string w = pt.name + "=" + pt.filename;
          bool here = ti < toks.size() && toks[ti] == w;
          if (here) ti++;
          if (here && ti < toks.size() && toks[ti].compare(0, 8, "tmpfile=") == 0) { names.push_back(toks[ti].substr(8)); ti++; }
          else { stored_all = false; names.push_back(""); if (!here && !c->fault_files) { bad = strf("file field %s", w.c_str()); break; } }
        }
      }
      if (nul) continue;
      if (bad.empty() && ti != toks.size()) bad = strf("nothing after field %zu", ti);
      if (!bad.empty()) violation("C10", "wrong-form", strf("%s: expected %s in form %s", name.c_str(), bad.c_str(), show(o.form, 300).c_str()));
      else if (!stored_all && !c->fault_files) violation("C10", "upload-not-named", strf("%s: an uploaded file is not handed to the handler: %s", name.c_str(), show(o.form, 300).c_str()));
      if (bad.empty() && o.kind == 1 && !c->tmp_removed) {
        for (size_t k = 0, f = 0; k < r.parts.size(); k++) {
          if (!r.parts[k].file) continue;
          std::string nm = f < names.size() ? names[f] : ""; f++;
          if (nm.empty()) continue;
          for (auto &t : o.tmp) if (t.first == nm) {
            if (t.second == "-") { violation("C10", "upload-missing", strf("%s: temporary file %s named to the handler does not exist", name.c_str(), nm.c_str())); break; }
            if (t.second.substr(1) != r.parts[k].data) { violation("C10", "upload-wrong-content", strf("%s: temporary file %s has %zu bytes %s, the client uploaded %zu bytes %s", name.c_str(), nm.c_str(), t.second.size() - 1, show(t.second.substr(1), 50).c_str(), r.parts[k].data.size(), show(r.parts[k].data, 50).c_str())); break; }
          }
        }
      }
    }
  }
}

// ---------- limits ----------
static void check_limits() {
  auto rs = rules();
  if (rs.empty()) {
    for (auto &c : g_conns) if (g_j[c.get()].p.status == 429 && c->obs.empty()) violation("C03", "spurious-429", strf("%s was refused with 429 although no limit is configured", cname(c.get()).c_str()));
    return;
  }
  struct Iv { u64 s, e; Conn *c; };
  for (size_t ri = 0; ri < rs.size(); ri++) {
    auto &r = rs[ri];
    std::vector<Iv> iv;
    for (auto &cp : g_conns) {
      Conn *c = cp.get(); J &j = g_j[c];
      if (!j.r.canon_line || !j.r.known_method || !istarts(j.r.url, r.path)) continue;
      if (!c->obs.empty()) { u64 e = c->obs.back().ended ? c->obs.back().t_end : c->closed ? c->t_close : g_now; iv.push_back({c->obs[0].t, e, c}); }
      else if (!g_sc->tls && j.p.status && j.p.status != 429 && c->t_first_send) iv.push_back({c->t_first_send, c->last_send_call, c});
    }
    for (auto &x : iv) {
      int n = 0, m = 0;
      for (auto &y : iv) if (y.s <= x.s && x.s < y.e) { n++; if (y.c->ip == x.c->ip) m++; }
      if (x.s >= x.e) { n++; m++; }
      if (n > r.total) { violation("C03", "over-total", strf("%d requests for %s are served at the same time, the limit is %lld (rule %s)", n, show(g_j[x.c].r.url).c_str(), (long long)r.total, r.path.c_str())); break; }
      if (m > r.per_ip) { violation("C03", "over-per-ip", strf("%d requests of %s for %s are served at the same time, the limit is %lld (rule %s)", m, x.c->ip.c_str(), show(g_j[x.c].r.url).c_str(), (long long)r.per_ip, r.path.c_str())); break; }
    }
  }
  for (auto &cp : g_conns) {
    Conn *c = cp.get(); J &j = g_j[c];
    if (j.p.status != 429 || !c->obs.empty() || !j.r.canon_line) continue;
    count("refused_429");
    u64 a = g_sc->tls ? c->t_dispatch : line_time(c, j.r), b = g_sc->tls ? (c->closed ? c->t_close : g_now) : c->t_first_send;
    bool just = false, matches = false;
    for (auto &r : rs) {
      if (!istarts(j.r.url, r.path)) continue;
      matches = true;
      std::vector<Iv> iv;
      for (auto &op : g_conns) {
        Conn *o = op.get(); if (o == c || !o->dispatched) continue;
        J &q = g_j[o];
        if (!q.r.line) continue;
        if (q.r.canon_line && (!istarts(q.r.url, r.path) || !q.r.known_method)) continue;
        if (q.p.status == 429 && o->obs.empty()) continue;
        iv.push_back({o->t_dispatch, endt(o), o});
      }
      std::vector<u64> ts{a}; for (auto &x : iv) if (x.s > a && x.s <= b) ts.push_back(x.s);
      for (u64 t : ts) {
        int n = 0, m = 0;
        for (auto &y : iv) if (y.s <= t && t <= y.e) { n++; if (y.c->ip == c->ip) m++; }
        if (n >= r.total || m >= r.per_ip) just = true;
      }
    }
    if (!just) violation("C03", "spurious-429", strf("%s asking for %s was refused with 429 although %s", cname(c).c_str(), show(j.r.url).c_str(), matches ? "no matching rule was at its maximum" : "no rule matches"));
  }
}

// ---------- access log ----------
static bool wall_contains(int64_t sec, u64 a, u64 b) {
  // is there a t in [a,b] with floor(wall(t)) == sec
  for (size_t i = 0; i < g_wall_hist.size(); i++) {
    u64 s = std::max(a, g_wall_hist[i].first), e = i + 1 < g_wall_hist.size() ? std::min(b, g_wall_hist[i + 1].first) : b;
    if (s > e) continue;
    int64_t w0 = ((int64_t)s + g_wall_hist[i].second) / (int64_t)SEC, w1 = ((int64_t)e + g_wall_hist[i].second) / (int64_t)SEC;
    if (sec >= w0 && sec <= w1) return true;
  }
  return false;
}
struct LogLine { std::string raw, ip, reqline, ref, ua; int status = 0; long long bytes = 0; int64_t ts = 0; double dur = 0; bool ok = false, used = false; u64 until = ~0ull; /* when its file was rotated */ };
static LogLine parse_line(const std::string &l) {
  LogLine x; x.raw = l;
  size_t a = l.find(" - - [");
  if (a == std::string::npos) return x;
  x.ip = l.substr(0, a);
  size_t b = l.find("] \"", a); if (b == std::string::npos) return x;
  std::string ts = l.substr(a + 6, b - a - 6);
  struct tm tm; memset(&tm, 0, sizeof tm);
  const char *e = strptime(ts.c_str(), "%d/%b/%Y:%H:%M:%S", &tm);
  if (!e || strcmp(e, " +0000")) return x;
  if (ts.size() != 26) return x;
  x.ts = timegm(&tm);
  // from the end: "REF" "UA" DUR
  size_t d = l.rfind("\" "); if (d == std::string::npos) return x;
  std::string du = l.substr(d + 2); char *end; x.dur = strtod(du.c_str(), &end); if (du.empty() || *end) return x;
  { size_t dot = du.find('.'); if (dot == std::string::npos || du.size() - dot != 4) return x; for (char k : du) if (!isdigit((unsigned char)k) && k != '.' && k != '-') return x; }
  size_t u = l.rfind("\" \"", d - 1); if (u == std::string::npos || u < b) return x;
  x.ua = l.substr(u + 3, d - u - 3);
  std::string rest = l.substr(b + 3, u - (b + 3)); // REQ" STATUS BYTES "REF
  size_t q = rest.rfind(" \""); if (q == std::string::npos) return x;
  x.ref = rest.substr(q + 2);
  rest = rest.substr(0, q);
  size_t z = rest.rfind("\" "); if (z == std::string::npos) return x;
  x.reqline = rest.substr(0, z);
  int n = 0; if (sscanf(rest.c_str() + z + 2, "%d %lld%n", &x.status, &x.bytes, &n) != 2 || rest[z + 2 + n]) return x;
  x.ok = true;
  return x;
}
static void check_access_log(bool crash) {
  std::string log = access_log();
  if (log.compare(0, g_base_log.size(), g_base_log)) { violation("C11", "log-altered", "earlier lines of the access log were changed or lost"); violation("C20", "log-altered", "lines of the access log from before the restart were changed or lost"); return; }
  if (g_sc->rawhandler) return;
  bool faulted = log_faulted(ACCESS) || g_sc->o("nolog");
  std::vector<LogLine> lines; size_t base = g_base_log.size();
  for (auto &n : access_files()) {
    if (!vfs_get(n, log)) continue;
    size_t p = std::min(base, log.size()); base -= p;
    while (p < log.size()) {
      size_t e = log.find('\n', p);
      if (e == std::string::npos) { if (!crash && !faulted) violation("C11", "torn-line", strf("the last line of the access log is not terminated: %s", show(log.substr(p)).c_str())); break; }
      lines.push_back(parse_line(log.substr(p, e - p))); p = e + 1;
      if (g_rotated.count(n)) lines.back().until = g_rotated[n];
    }
  }
  if (faulted) return;
  bool garbage = false; // some client may legally make lines that cannot be parsed
  int fuzzy = 0;
  for (auto &cp : g_conns) { J &j = g_j[cp.get()]; if (cp->dispatched && !j.r.canon_line && !j.rx.empty()) garbage = true; }
  for (auto &l : lines) if (!l.ok && !garbage) { violation("C11", "torn-line", strf("access log line is not a complete record: %s", show(l.raw, 300).c_str())); return; }
  // responses that must have a line choose theirs before those that may have one
  for (int pass = 0; pass < 2; pass++) for (auto &cp : g_conns) {
    Conn *c = cp.get(); J &j = g_j[c];
    if (!c->dispatched) continue;
    if ((j.full && j.p.any && !(crash && !c->closed)) != (pass == 0)) continue;
    if (g_sc->tls && !c->tls_established) { fuzzy++; continue; }
    bool answered = j.p.any || c->t_first_send;
    bool logs = true;
    if (!c->obs.empty()) { if (c->expects.empty()) { if (c->obs.back().ended) continue; fuzzy++; continue; } logs = c->expects.back().logs; }
    if (!answered) { fuzzy++; continue; }
    bool must = j.full && j.p.any;
    if (crash && must && !(c->closed)) must = false;
    bool known = j.r.canon_line && (j.r.canon || !j.r.known_method || j.p.status == 429);
    if (!known || !j.p.status || (g_sc->tls && !must)) { fuzzy++; continue; }
    // matching lines
    std::vector<LogLine *> m;
    bool early = !j.r.known_method || (j.p.status == 429 && c->obs.empty());
    std::string ip = early ? c->ip : j.r.ip;
    std::string ref = early ? "" : j.r.referer, ua = early ? "" : j.r.ua;
    bool hdr_known = early || (j.r.headers.size() <= 20 && j.r.referer.size() < 256 && j.r.ua.size() < 256);
    if (j.r.reqline.find('"') != std::string::npos || ref.find('"') != std::string::npos || ua.find('"') != std::string::npos) hdr_known = false;
    if (j.r.reqline.find('"') != std::string::npos) { fuzzy++; continue; }
    for (auto &l : lines) if (l.ok && !l.used && l.reqline == j.r.reqline) m.push_back(&l);
    std::string name = cname(c);
    int same = 0; for (auto &o : g_conns) if (g_j[o.get()].r.reqline == j.r.reqline && o->dispatched) same++;
    if (same == 1) {
      if (!logs) { if (!m.empty()) violation("C11", "unexpected-line", strf("%s: a response not sent by the framework has a log line %s", name.c_str(), show(m[0]->raw, 300).c_str())); continue; }
      if (m.empty()) { if (must) { violation("C11", "line-missing", strf("%s: no access log line for %s (status %d)", name.c_str(), show(j.r.reqline).c_str(), j.p.status)); if (crash || g_epoch) violation("C20", "line-missing", strf("%s: response delivered and connection closed before the kill, but no access log line for %s", name.c_str(), show(j.r.reqline).c_str())); } continue; }
      if (m.size() > 1) violation("C11", "line-twice", strf("%s: %zu access log lines for one response to %s", name.c_str(), m.size(), show(j.r.reqline).c_str()));
      if (m[0]->until < c->t_dispatch) violation("C11", "line-in-old-log", strf("%s: the access log line for %s is in a file that was rotated before the request was taken", name.c_str(), show(j.r.reqline).c_str()));
    } else if (!logs) continue;
    else if (m.empty()) { if (must) violation("C11", "line-missing", strf("%s: too few access log lines for %s", name.c_str(), show(j.r.reqline).c_str())); continue; }
    LogLine *l = m[0];
    if (same > 1) { // prefer an exactly fitting one
      auto fits = [&](LogLine *x, bool bytes) { return x->status == j.p.status && (x->ip == ip || !(early || j.r.ip_known)) && (!hdr_known || (x->ref == ref && x->ua == ua)) && (!bytes || !must || x->bytes == (long long)conn_plain(c).size()); };
      bool fit = false;
      for (auto x : m) if (fits(x, true)) { l = x; fit = true; break; }
      if (!fit) for (auto x : m) if (fits(x, false)) { l = x; break; }
      l->used = true;
      if (!must) continue;
      if (fits(l, false) && !fit) violation("C11", "wrong-bytes", strf("%s: no line with %zu bytes for %s", name.c_str(), conn_plain(c).size(), show(j.r.reqline).c_str()));
      if (l->status != j.p.status) violation("C11", "wrong-field", strf("%s: no line with status %d for %s", name.c_str(), j.p.status, show(j.r.reqline).c_str()));
      continue;
    }
    l->used = true;
    auto bad = [&](const char *f, const std::string &got, const std::string &want) { violation("C11", strf("wrong-%s", f), strf("%s: access log line for %s has %s %s, expected %s", name.c_str(), show(j.r.reqline).c_str(), f, got.c_str(), want.c_str())); };
    if ((early || j.r.ip_known) && l->ip != ip) bad("address", show(l->ip), show(ip));
    if (must && l->status != j.p.status) bad("status", strf("%d", l->status), strf("%d", j.p.status));
    if (must && l->bytes != (long long)conn_plain(c).size()) bad("bytes", strf("%lld", l->bytes), strf("%zu", conn_plain(c).size()));
    if (hdr_known && l->ref != ref) bad("referrer", show(l->ref), show(ref));
    if (hdr_known && l->ua != ua) bad("user-agent", show(l->ua), show(ua));
    if (!wall_contains(l->ts, c->t_accept, endt(c))) bad("time-stamp", strf("%lld", (long long)l->ts), strf("a time between start and end of the request (%lld)", (long long)(((int64_t)c->t_accept + g_wall_hist[0].second) / (int64_t)SEC)));
    double up = (endt(c) - c->t_accept) / 1e9 + 0.003, lo = 0;
    // what is read after the response is not part of the request
    u64 lastrx = 0; if (g_sc->tls) lastrx = line_time(c, j.r); else for (auto &x : c->recv_log) if (x.second <= c->t_last_sent) lastrx = x.second;
    if (!c->expects.empty()) lastrx = c->expects.back().t;
    if (must && !g_sc->tls) lastrx = std::max(lastrx, c->t_last_sent);
    if (c->t_first_read && lastrx > c->t_first_read) lo = (lastrx - c->t_first_read) / 1e9 - 0.003;
    if (l->dur < 0 || l->dur > up || (lo > 0 && l->dur < lo)) bad("duration", strf("%.3f", l->dur), strf("between %.3f and %.3f", std::max(lo, 0.0), up));
  }
  if (!garbage) {
    std::map<std::string, int> nl, nc;
    for (auto &l : lines) nl[l.reqline]++;
    for (auto &cp : g_conns) if (cp->dispatched && (cp->expects.empty() || cp->expects.back().logs)) nc[g_j[cp.get()].r.reqline]++;
    for (auto &x : nl) if (nc.count(x.first) && x.second > nc[x.first] && !fuzzy) { violation("C11", "line-twice", strf("%d access log lines for %d responses to %s", x.second, nc[x.first], show(x.first).c_str())); break; }
  }
  int unused = 0; std::string ex;
  for (auto &l : lines) if (!l.used) {
    bool same = false;
    for (auto &o : g_conns) { J &j = g_j[o.get()]; if (o->dispatched && j.r.canon_line && j.r.reqline == l.reqline) same = true; }
    if (l.ok && same) continue; // judged above
    unused++; if (ex.empty()) ex = l.raw;
  }
  if (unused > fuzzy) violation("C11", "unexplained-line", strf("%d access log line(s) belong to no response, for example %s", unused, show(ex, 300).c_str()));
}

// ---------- diagnostic log ----------
static void check_diag(bool crash) {
  std::string path = g_sc->embed ? (g_sc->o("logfile", 0) ? "/var/log/app.log" : "") : "/var/log/wayuu.log", t;
  if (!path.empty()) { if (log_faulted(path.c_str())) return; vfs_get(path, t); if (t.compare(0, g_base_diag.size(), g_base_diag)) { violation("C12", "log-altered", "earlier diagnostic records were changed"); return; } t = t.substr(g_base_diag.size()); }
  else t = g_stderr_cap;
  static const char *names[] = {"TRACE", "DEBUG", "INFO ", "WARN ", "ERROR", "FATAL"};
  int minlevel = g_sc->debug ? 1 : 2;
  std::map<std::string, std::vector<std::pair<int, int64_t>>> seen;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos) { if (!crash && !g_exited) violation("C12", "torn-record", strf("the last record is not terminated: %s", show(t.substr(p)).c_str())); break; }
    std::string l = t.substr(p, e - p); p = e + 1;
    if (l.empty()) continue;
    struct tm tm; memset(&tm, 0, sizeof tm);
    const char *q = strptime(l.c_str(), "%d-%m-%y %H:%M:%S ", &tm);
    bool ok = q && l.size() > 18 && l[17] == ' ';
    int lvl = -1; std::string msg;
    if (ok) {
      const char *d = l.c_str() + 18; while (isdigit((unsigned char)*d)) d++;
      if (d == l.c_str() + 18 || *d != ' ') ok = false;
      else {
        d++;
        for (int i = 0; i < 6; i++) if (!strncmp(d, names[i], 5)) lvl = i;
        if (lvl < 0 || d[5] != ' ') ok = false;
        else {
          d += 6; // file:func:line: msg
          const char *m = strstr(d, ": ");
          if (!m) ok = false; else msg = m + 2;
          if (ok) { int colons = 0; for (const char *z = d; z < m; z++) { if (*z == ':') colons++; if (*z == ' ') ok = false; } if (colons != 2) ok = false; }
        }
      }
    }
    if (!ok) { violation("C12", "mixed-records", strf("diagnostic log line is not one whole record: %s", show(l, 300).c_str())); return; }
    // the message of one record does not contain the head of another
    if (lvl < minlevel) { violation("C12", "below-level", strf("record below the configured level: %s", show(l, 200).c_str())); return; }
    if (msg.compare(0, 5, "MARK:") == 0) seen[msg].push_back({lvl, (int64_t)timegm(&tm)});
    else if (msg.find("MARK:") != std::string::npos || msg.find(":KRAM") != std::string::npos) { if (msg.find("Router") == std::string::npos && msg.find("URL") == std::string::npos) { violation("C12", "mixed-records", strf("two records are mixed in %s", show(l, 300).c_str())); return; } }
  }
  std::map<std::string, int> expect;
  for (auto &m : g_marks) {
    if (!m.t1 && !(m.level < minlevel)) { seen.erase(m.text); continue; } // still inside the call when the run ended
    if (m.level < minlevel) { if (seen.count(m.text)) violation("C12", "below-level", "record below the configured level: " + show(m.text)); continue; }
    auto it = seen.find(m.text);
    if (it == seen.end()) { violation("C12", "record-missing", strf("the record %s does not appear as one line", show(m.text, 200).c_str())); continue; }
    bool okr = false;
    for (auto &x : it->second) if (x.first == m.level && wall_contains(x.second, m.t0, m.t1)) okr = true;
    if (!okr) violation("C12", "wrong-stamp", strf("the record %s has another record's time stamp or level", show(m.text, 80).c_str()));
    expect[m.text]++;
  }
  for (auto &s : seen) if (expect.count(s.first) && (int)s.second.size() > expect[s.first]) violation("C12", "record-twice", "record appears twice: " + show(s.first));
  for (auto &s : seen) if (!expect.count(s.first)) { bool known = false; for (auto &m : g_marks) if (m.text == s.first) known = true; if (!known) violation("C12", "mixed-records", "record was never written like this: " + show(s.first, 300)); }
}

// ---------- descriptors, admission, seconds, TLS ----------
static void check_conns(bool final_) {
  for (auto &cp : g_conns) {
    Conn *c = cp.get(); J &j = g_j[c];
    std::string name = cname(c);
    if (!c->accepted) { if (final_ && c->connected && g_accepting && !g_exited) violation("C02", "never-accepted", strf("%s was never accepted", name.c_str())); continue; }
    bool ca, cd; admission(c, ca, cd);
    bool refused = accept_closed(c);
    if (refused) {
      size_t q = queued_before(c, c->t_close);
      if (!c->tx.empty()) violation("C04", "response-to-refused", strf("%s was refused but received bytes", name.c_str()));
      if (c->list_fault) count("refused_on_list_fault");
      else if (!cd && q < 1000) {
        violation("C04", "wrongly-refused", strf("%s from %s was refused although the lists admit it", name.c_str(), c->ip.c_str()));
        violation("C02", "dropped", strf("%s was closed unserved while only %zu connections were queued", name.c_str(), q));
      } else if (!cd) count("queue_full_drop");
      else count("refused_by_list");
    } else if (c->dispatched) {
      if (!ca) violation("C04", "wrongly-admitted", strf("%s from %s was served although the lists exclude it", name.c_str(), c->ip.c_str()));
      // the part of the allow list that could be read may have named the address
      else if (c->list_fault_persistent && !(!c->faulted_paths.count(g_sc->root + "/etc/deny") && list_has_any(g_sc->root + "/etc/allow", c))) violation("C04", "fail-open", strf("%s from %s was served although an existing list could not be read", name.c_str(), c->ip.c_str()));
    }
    if (!final_ || g_exited) continue;
    if (!c->closed) {
      if (!c->dispatched) violation("C02", "lost", strf("%s was accepted but never served or closed", name.c_str()));
      Thread *w = nullptr; for (auto t : g_threads) if (t->conn == c && t->st != T_DONE) w = t;
      if (w) { violation("C02", "stuck", strf("%s is still not finished after all clients and faults are gone (thread %d waits for %s)", name.c_str(), w->id, w->why)); if (c->dispatched) violation("C06", "worker-stuck", strf("thread %d still waits for %s on the connection of %s", w->id, w->why, name.c_str())); }
      if (!w || !strcmp(w->why, "cond")) {
        violation("C08", "not-closed", strf("the connection of %s (fd %d) was never closed", name.c_str(), c->fd));
        if (g_sc->tls && c->dispatched && !c->tls_established) violation("C17", "not-closed", strf("the connection of %s (fd %d), that has no TLS session, was never closed", name.c_str(), c->fd));
      }
    } else if (c->dispatched && !c->t_worker_idle) {
      Thread *w = nullptr; for (auto t : g_threads) if (t->conn == c) w = t;
      if (w && w->st == T_BLOCKED && strcmp(w->why, "cond")) violation("C02", "worker-stuck", strf("thread %d never became idle after serving %s (waits for %s)", w->id, name.c_str(), w->why));
    }
    // seconds
    int64_t secs;
    if (limit_secs(c, j.r, secs) && c->dispatched) {
      u64 lim = (u64)secs * SEC, lt = line_time(c, j.r), t0 = lt ? std::max(c->t_accept, lt) : 0;
      bool early429 = j.p.status == 429 && c->obs.empty();
      u64 work = 0; for (auto &o : c->obs) if (o.ended) { /* time inside the application */ struct hparams p; H_params(1, o.route, o.query.c_str(), &p); work += 2ull * p.work * US; }
      u64 drop = c->t_shutdown && c->shut_by_other ? c->t_shutdown : c->closed ? c->t_close : g_now;
      if (t0 && !early429 && j.r.canon_line && drop > t0 + lim + 5 * SEC + total_stall_ns() + work) violation("C13", "not-dropped", strf("%s for %s was still alive %.1f s after it started, the rule allows %lld s", name.c_str(), show(j.r.url).c_str(), (drop - t0) / 1e9, (long long)secs));
      if (c->shut_by_other && c->t_shutdown + 50 * MS < c->t_accept + lim) violation("C13", "dropped-early", strf("%s for %s was dropped %.1f s after it was accepted, the rule allows %lld s", name.c_str(), show(j.r.url).c_str(), (c->t_shutdown - c->t_accept) / 1e9, (long long)secs));
      if (c->shut_by_other) count("dropped_by_seconds");
      if (c->shut_by_other && c->closed && c->t_close > c->t_shutdown + 2 * SEC + total_stall_ns() + work) violation("C13", "worker-not-freed", strf("%s was dropped but its worker kept it for %.1f s more", name.c_str(), (c->t_close - c->t_shutdown) / 1e9));
    } else if (c->shut_by_other && j.r.canon_line) violation("C13", "dropped-without-rule", strf("%s for %s was dropped although no rule limits its time", name.c_str(), show(j.r.url).c_str()));
    // TLS
    if (g_sc->tls) {
      // every byte on the wire belongs to a TLS record
      size_t q = 0; const std::string &t = c->tx;
      while (q + 5 <= t.size()) {
        unsigned ty = (unsigned char)t[q], ma = (unsigned char)t[q + 1]; size_t n = ((unsigned char)t[q + 3] << 8) | (unsigned char)t[q + 4];
        if (ty < 20 || ty > 24 || ma != 3 || n > 18432) { violation("C17", "plaintext-on-wire", strf("%s received bytes that are not a TLS record: %s", name.c_str(), show(t.substr(q), 80).c_str())); break; }
        q += 5 + n;
      }
      if (q == 0 && t.size() && t.size() < 5 && c->t_first_send) { if ((unsigned char)t[0] < 20 || (unsigned char)t[0] > 24) violation("C17", "plaintext-on-wire", name + " received plain bytes"); }
      if (c->spec->tls && c->dispatched && c->closed && !c->tls_established && !c->faulted && c->faults.empty() && !c->broken && c->spec->tls_cut < 0 && c->spec->read_stop < 0 && !c->fault_files && !c->shut_by_other) {
        bool plain = true; for (auto &x : c->spec->acts) if (x.type != 'S') plain = false;
        if (plain) violation("C17", "handshake-failed", strf("%s: the TLS handshake of a well-behaved client did not complete", name.c_str()));
      }
      if (!c->tls_established && t.find("HTTP/1.") != std::string::npos) violation("C17", "plaintext-on-wire", name + " received a plain response");
    }
  }
  if (!final_ || g_exited) return;
  // files
  std::map<std::string, int> logs;
  for (auto &s : fd_open_list()) {
    if (s.find(": file ") == std::string::npos) continue;
    std::string p = s.substr(s.find(": file ") + 7);
    if (p.compare(0, 9, "/var/log/") == 0 && ++logs[p] <= 1) continue;
    violation("C08", "file-left-open", s + " is still open although the server is idle");
  }
  if (g_ssl_live > 0) { violation("C09", "tls-not-freed", strf("%d TLS objects still exist although the server is idle", g_ssl_live)); violation("C17", "tls-not-freed", strf("%d TLS objects still exist although the server is idle", g_ssl_live)); }
}
static void check_memory() {
  size_t n = g_round_heap.size();
  if (n < 6) return;
  bool grow = true;
  for (size_t i = n - 4; i < n; i++) if (!(g_round_heap[i].bytes > g_round_heap[i - 1].bytes)) grow = false;
  if (grow) violation("C09", "memory-grows", strf("live memory grows in every round: %llu -> %llu -> %llu -> %llu bytes; %s", (unsigned long long)g_round_heap[n - 4].bytes, (unsigned long long)g_round_heap[n - 3].bytes, (unsigned long long)g_round_heap[n - 2].bytes, (unsigned long long)g_round_heap[n - 1].bytes, heap_report(g_round_seq[n - 3]).c_str()));
}

// ---------- start-up ----------
const char *bind_address(const Scenario &sc) { static const char *a[] = {"", "127.0.0.1", "0.0.0.0", "10.1.2.3", "192.168.100.200"}; int k = (int)sc.o("bindaddr"); return sc.embed && !k ? "0.0.0.0" : a[k ? k : 1]; }
int H_port(void) { int b = (int)g_sc->o("badarg"); return b == 8 ? 70000 : b == 9 ? -5 : (int)g_sc->o("port", 4443); }
const char *H_bind(void) { int b = (int)g_sc->o("badarg"); return b == 4 ? "localhost" : b == 5 ? "10.0.0.256" : b == 6 ? "" : bind_address(*g_sc); }
static bool info_only() { int b = (int)g_sc->o("badarg"); return !g_sc->embed && (b == 11 || b == 12); }
static bool startup_fatal(std::string &why) {
  if (int b = (int)g_sc->o("badarg")) { why = b == 3 ? "there is an option it does not know" : b == 2 ? "the root is too long" : b >= 7 && b != 11 && b != 12 ? "the port is not valid" : "the address is not valid"; return true; }
  for (auto &f : g_sc->faults) {
    if (f.epoch >= 0 && f.epoch != g_epoch) continue;
    if (f.kind == "startup" && f.op != "setsockopt") { if (f.op == "sslctx" && !g_sc->tls) continue; why = f.op + " fails"; return true; }
  }
  if (g_sc->o("maxthreads", -1) == 0) { why = "no worker thread can be started"; return true; }
  if (g_sc->o("fatal")) { why = "set-up is broken on purpose"; return true; }
  return false;
}
static void check_startup(bool crash) {
  if (g_sc->mode != "server" || (crash && !g_accepting)) return;
  std::string why; bool fatal = startup_fatal(why);
  if (info_only()) { if (g_accepting || !g_exited || g_exit_code) violation("C19", "exit-status", "the server does not just print and exit"); return; }
  std::string want = strf("%s:%d", bind_address(*g_sc), (int)g_sc->o("port", 4443));
  if (g_accepting && !fatal && g_bound != want) violation("C19", "wrong-address", strf("the server was told to listen on %s and listens on %s", want.c_str(), g_bound.c_str()));
  if (g_accepting) { if (fatal) violation("C19", "started-anyway", strf("the server accepts connections although %s", why.c_str())); }
  else if (g_exited) {
    if (fatal && g_exit_code == 0) violation("C19", "exit-status", strf("the server exits with status 0 although %s", why.c_str()));
    // a server with time limits does not start without the thread that enforces them
    if (!fatal && g_pcreate_failed) for (auto &f : g_sc->files) if (f.first == g_sc->root + "/etc/limits") for (auto &x : parse_rules(f.second)) if (x.secs > 0) return;
    if (!fatal && g_sc->o("maybe_fatal") == 0) violation("C19", "start-failed", strf("the server exits with status %d without a reason: %s", g_exit_code, show(g_stdout_cap + g_stderr_cap, 300).c_str()));
    if (!fatal && g_epoch > 0) violation("C20", "restart-failed", strf("the server does not start again after a crash (status %d): %s", g_exit_code, show(g_stdout_cap + g_stderr_cap, 300).c_str()));
    if (fatal) count("startup_refused");
  } else if (!fatal) violation("C19", "never-accepts", "the server neither exits nor accepts connections");
  else violation("C19", "hangs", strf("the server neither exits nor serves although %s", why.c_str()));
}
static void check_conf() {
  if (g_sc->mode != "conf") return;
  if (!g_conf_done) { violation("C18", "hangs", "configuration jobs do not finish"); return; }
  for (auto &r : g_conf_res) {
    const ConfJob &j = g_sc->jobs[r.job];
    bool faulted = vfs_file_faulted_prefix(j.path); // also a temporary file beside it
    std::string what = strf("%s of %s (job %d)", r.write ? "write" : "read", j.path.c_str(), r.job);
    if (r.write) {
      if (r.rc == 0) {
        std::vector<std::string> got; size_t p = 0; bool tail = false;
        while (p < r.content.size()) { size_t e = r.content.find('\n', p); if (e == std::string::npos) { got.push_back(r.content.substr(p)); tail = true; break; } got.push_back(r.content.substr(p, e - p)); p = e + 1; }
        if (!r.exists || got != j.items || (tail && false)) violation("C18", "write-lost", strf("%s reports success but the file holds %zu of %zu items: %s", what.c_str(), got.size(), j.items.size(), show(r.content).c_str()));
      } else if (!faulted) violation("C18", "write-spurious-failure", what + " fails although nothing went wrong");
    } else {
      std::vector<std::string> want; bool bad = false, unspec = false; size_t p = 0;
      while (p < r.content.size()) {
        size_t e = r.content.find('\n', p); std::string l = r.content.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? r.content.size() : e + 1;
        size_t q = l.find('='); if (trim_ws(l).find_first_not_of("=") == std::string::npos) q = std::string::npos;
        if (q == std::string::npos) { bad = true; break; }
        std::string k = trim_ws(l.substr(0, q)), v = trim_ws(l.substr(q + 1));
        if (k.empty()) { unspec = true; break; } // a value without a key
        if (k.size() == 2 && (k[0] == 's' || k[0] == 'm') && k[1] >= '0' && k[1] <= '3') {
          if (k[0] == 'm') { std::string o; size_t x = 0; int n = 0; if (!v.empty()) for (;;) { size_t c = v.find(',', x); std::string t = v.substr(x, c == std::string::npos ? c : c - x); if (!t.empty() && n < 20) { o += (n ? "," : "") + trim_ws(t); n++; } if (c == std::string::npos) break; x = c + 1; } if (n) v = o; }
          want.push_back(k + "=" + v);
        }
      }
      if (unspec) continue;
      if (r.rc == 0) {
        if (!r.exists || bad || g_conf_items[r.job] != want) {
          std::string g, w; for (auto &x : g_conf_items[r.job]) g += x + " | "; for (auto &x : want) w += x + " | ";
          violation("C18", "read-lost", strf("%s reports success but delivers %zu items, the file holds %zu: %s instead of %s", what.c_str(), g_conf_items[r.job].size(), want.size(), show(g, 200).c_str(), show(w, 200).c_str()));
        }
      } else if (!faulted && r.exists && !bad) violation("C18", "read-spurious-failure", what + " fails although nothing went wrong");
    }
  }
}

// ---------- phases ----------
static std::vector<ClientSpec *> g_extra;
static void start_probes() {
  int n = 0;
  auto add = [&](const std::string &req) {
    ClientSpec *s = new ClientSpec; s->ip = "10.9.9.9"; s->tls = g_sc->tls; s->acts.push_back({0, 'S', req}); g_extra.push_back(s);
    client_connect(s, 100000 + n, true, g_now + (u64)(1 + 5 * n) * MS); n++;
  };
  if (g_sc->rawhandler) { add("hello probe\r\n"); return; }
  add(strf("GET /?probe=%d HTTP/1.1\r\nUser-Agent: probe\r\n\r\n", g_epoch));
  add(strf("GET /api/no/such/route?probe=%d HTTP/1.1\r\n\r\n", g_epoch));
  for (size_t i = 0; i < g_sc->routes.size() && n < 5; i++) {
    const std::string &t = g_sc->routes[i].tmpl; if (t.find('{') != std::string::npos || t.compare(0, 4, "GET:") || g_sc->routes[i].handler != 0) continue;
    add(strf("GET /api%s?t=probe%d&s=30&pr=%d HTTP/1.1\r\nX-Session: probe\r\n\r\n", t.substr(4).c_str(), (int)i, g_epoch));
  }
}
void check_probes() {
  for (auto &cp : g_conns) {
    Conn *c = cp.get(); if (!c->probe) continue;
    J &j = g_j[c];
    count("probes");
    std::string what;
    if (g_sc->rawhandler) { if (conn_plain(c).empty()) what = "got no answer"; }
    else if (!c->closed || !j.p.head) what = "was not answered";
    else if (j.p.status == 429) { if (0) what = "was refused with 429"; }
    if (!what.empty()) {
      violation("C07", "probe-unserved", strf("after the faults ended a new client %s", what.c_str()));
      violation("C02", "probe-unserved", strf("after the faults ended a new client %s", what.c_str()));
      if (g_sc->tls) violation("C17", "probe-unserved", strf("after the faults ended a new client %s", what.c_str()));
      if (g_epoch) violation("C20", "probe-unserved", strf("after the restart a new client %s", what.c_str()));
      if (g_sc->o("maxthreads", -1) > 0) violation("C19", "probe-unserved", strf("with only some worker threads a new client %s", what.c_str()));
    }
  }
}
static void idle_blocked_check() {
  // phase 0 is over: clients that are done, on a quiet server, must be done on the server side too
  for (auto &cp : g_conns) {
    Conn *c = cp.get();
    if (!c->accepted || c->closed || !c->dispatched) continue;
    Thread *w = nullptr; for (auto t : g_threads) if (t->conn == c && t->st == T_BLOCKED) w = t;
    if (!w) continue;
    bool client_over = c->client_gone || c->client_fin_sent;
    if (client_over && !strcmp(w->why, "recv")) { violation("C06", "worker-not-released", strf("thread %d still reads from %s whose client has left", w->id, cname(c).c_str())); }
    if (g_sc->tls && !c->tls_established && c->t_first_read) {
      bool plain = !c->spec->tls, cutf = c->spec->tls && c->cut_done && c->spec->tls_cut_kind != 'H';
      if ((plain && c->rx.size() >= 16) || cutf) violation("C17", "not-closed", strf("%s: the TLS handshake cannot complete but the connection is not closed", cname(c).c_str()));
    }
    // a complete request of a client that reads everything must be answered by now
    if (!g_sc->rawhandler && !c->client_gone && !c->reader_stalled && !strcmp(w->why, "recv")) {
      Req r = parse_req(c->tls ? c->sent_by_client : c->rx, c->ip);
      if (r.complete && r.canon && (!g_sc->tls || c->tls_established)) { violation("C02", "request-not-answered", strf("%s sent a complete request (%s) but the server waits for more", cname(c).c_str(), show(r.reqline).c_str())); violation("C01", "request-not-recognised", strf("%s sent a complete request (%s) but the server waits for more", cname(c).c_str(), show(r.reqline).c_str())); }
    }
  }
  for (auto t : g_threads) if (t->st == T_BLOCKED && (!strcmp(t->why, "mutex") || !strcmp(t->why, "filelock"))) { violation("*", "deadlock", strf("thread %d waits for a lock for ever", t->id)); break; }
  // connections that nobody serves although a worker is idle
  int waiting = 0; for (auto t : g_threads) if (t->st == T_BLOCKED && (!strcmp(t->why, "cond") || !strcmp(t->why, "sem")) && !t->conn) waiting++;
  for (auto &c : g_conns) if (c->accepted && !c->dispatched && !c->closed && waiting) { violation("C02", "lost", strf("%s was accepted but is neither served nor closed although %d workers are idle", cname(c.get()).c_str(), waiting)); break; }
}
static void start_round() {
  u64 base = g_now;
  for (size_t i = 0; i < g_sc->clients.size(); i++) if (g_sc->clients[i].group == 1) { Conn *c = client_connect(&g_sc->clients[i], (int)i, false, base + g_sc->clients[i].at * US); c->round = g_round + 1; }
}
static int g_again = 0;
void phase_idle() {
  g_last_progress = g_now;
  if (g_sc->mode == "conf") { finish_run("idle"); }
  if (!g_accepting) finish_run("idle");
  ev("phase %d ends", g_phase);
  switch (g_phase) {
  case 0:
    idle_blocked_check();
    g_phase = 1; g_faults_on = false;
    clients_release_all();
    return;
  case 1:
    if (clients_left() && g_again++ < 8) { clients_release_all(); return; }
    g_again = 0;
    if (g_round < g_sc->o("rounds", 0)) { g_faults_on = true; g_phase = 2; start_round(); return; }
    g_phase = 3; g_faults_on = false; start_probes();
    return;
  case 2: // round over: release, then measure
    clients_release_all(); g_phase = 5;
    return;
  case 5:
    if (clients_left() && g_again++ < 8) { clients_release_all(); return; }
    g_again = 0;
    g_round_heap.push_back(heap_stat()); g_round_seq.push_back(heap_seq());
    ev("round heap %llu bytes %llu blocks", (unsigned long long)heap_stat().bytes, (unsigned long long)heap_stat().blocks);
    g_round++;
    g_phase = 1;
    return;
  case 3:
    g_phase = 4;
    finish_run("end");
  default: finish_run("end");
  }
}
void process_exit(int code, const char *how) {
  g_exited = true; g_exit_code = code; g_exit_how = how;
  ev("process ends: %s %d", how, code);
  if (g_accepting) violation("*", strf("terminated-%s", how), strf("the server process ended (%s, status %d) while serving: %s", how, code, show(g_stderr_cap, 200).c_str()));
  finish_run("exit");
}
static void check_log_kept(const std::string &log) {
  if (!log.compare(0, g_base_log.size(), g_base_log)) return;
  violation("C11", "log-altered", "earlier lines of the access log were changed or lost"); violation("C20", "log-altered", "lines of the access log from before the restart were changed or lost");
}
void on_first_accept() { check_log_kept(access_log()); }
void oracle_setup() {
  g_wall_hist.push_back({0, g_wall_off});
  vfs_get(g_sc->embed ? "/var/log/app.log" : "/var/log/wayuu.log", g_base_diag);
  g_base_log = access_log();
}
void oracle_checks(const char *reason) {
  bool crash = !strcmp(reason, "crash"), end = !strcmp(reason, "end");
  g_on = false;
  if (g_sc->mode == "conf") { check_conf(); return; }
  check_startup(crash);
  for (auto &cp : g_conns) { Conn *c = cp.get(); J &j = g_j[c]; j.rx = c->tls ? c->sent_by_client : c->rx; j.r = parse_req(j.rx, c->ip); }
  if (crash) for (auto &cp : g_conns) if (!cp->closed) cp->closed_by_crash = true;
  for (auto &cp : g_conns) { Conn *c = cp.get(); if (c->accepted && c->dispatched) { judge(c); check_obs(c); } }
  check_limits();
  check_conns(end);
  if (end || crash) check_access_log(crash);
  if (end || crash) check_diag(crash);
  if (end) { check_memory(); check_probes(); }
  if (!end && !crash && !g_exited) { /* a run cut short by a violation */ }
}
void server_main_thread(const Scenario &sc) {
  if (sc.mode == "conf") {
    u64 before = heap_stat().bytes, seq = heap_seq();
    app_conf_jobs(); g_conf_done = true;
    if (heap_stat().bytes > before) violation("C18", "memory-kept", strf("%llu bytes stay allocated after all configuration files were written and read: %s", (unsigned long long)(heap_stat().bytes - before), heap_report(seq).c_str()));
    for (auto &s : fd_open_list()) if (s.find(": file ") != std::string::npos && s.find("/etc/") != std::string::npos) violation("C18", "file-left-open", s + " is still open after all configuration files were written and read");
    finish_run("end");
  }
  if (sc.embed) app_embedded();
  else {
    app_register_routes();
    static std::string root = sc.root; static char *argv[12]; int n = 0;
    argv[n++] = (char *)"wayuu";
    if (!sc.tls) argv[n++] = (char *)"-f";
    if (sc.debug) argv[n++] = (char *)"-d";
    if (sc.root != "/etc/wayuu" || sc.o("passroot")) { argv[n++] = (char *)"-r"; argv[n++] = &root[0]; }
    static std::string port = strf("%d", (int)sc.o("port")), longroot((sc.seed % 3) ? 255 + sc.seed % 3 : 300, 'r'), longaddr = std::string("10.10.10.10.10.10.10.10.10").substr(0, (sc.seed % 3) ? 23 + sc.seed % 3 : 26);
    if (sc.o("bindaddr")) { argv[n++] = (char *)"-b"; argv[n++] = (char *)bind_address(sc); }
    if (sc.o("port", -1) >= 0) { argv[n++] = (char *)"-p"; argv[n++] = &port[0]; }
    static const char *bad[][2] = {{0, 0}, {"-b", 0}, {"-r", 0}, {"-q", 0}, {"-b", "localhost"}, {"-b", "10.0.0.256"}, {"-b", ""}, {"-p", "http"}, {"-p", "70000"}, {"-p", "-5"}, {"-p", "44x3"}, {"-v", 0}, {"-h", 0}, {"-p", ""}};
    if (int b = (int)sc.o("badarg")) {
      argv[n++] = (char *)bad[b][0];
      if (b == 1) argv[n++] = &longaddr[0]; else if (b == 2) argv[n++] = &longroot[0]; else if (bad[b][1]) argv[n++] = (char *)bad[b][1];
    }
    argv[n] = nullptr;
    process_exit(wayuu_main(n, argv), "return");
  }
  process_exit(0, "return");
}
