// Runs scenarios (one forked process per server life), searches seeds, minimises and replays violations.
#include "sim.h"
#include "result.h"
#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <iterator>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Shm *g_shm = nullptr;
extern std::vector<std::pair<u64, int64_t>> g_wall_hist;
const std::vector<Dev> &recorded_devs();
void stdio_init(); void tls_seed(u64); void oracle_setup(); void oracle_checks(const char *);
uint32_t guard_count();
extern "C" char __executable_start;
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));

static std::map<std::string, u64> g_counts;
struct Viol { std::string prop, cls, detail; };
static std::vector<Viol> g_viol;
void count(const char *k, u64 n) { g_counts[k] += n; }
static std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
void violation(const char *prop, const std::string &cls, const std::string &detail) {
  for (auto &v : g_viol) if (v.prop == prop && v.cls == cls) return; // the first of a kind is enough
  // on an established session both directions must arrive intact
  if (g_sc && g_sc->tls && (!strcmp(prop, "C01") || !strcmp(prop, "C05"))) violation("C17", cls, detail);
  // after a restart every kind of request is served normally
  if (g_epoch > 0 && (!strcmp(prop, "C01") || !strcmp(prop, "C05") || !strcmp(prop, "C10") || !strcmp(prop, "C15") || !strcmp(prop, "C16"))) violation("C20", cls, detail);
  g_viol.push_back({prop, cls, oneline(detail).substr(0, 1500)});
  ev("VIOLATION %s %s: %s", prop, cls.c_str(), detail.c_str());
}
// ---------- symbols ----------
static std::vector<std::pair<u64, std::string>> g_syms;
static void load_syms() {
  if (!g_syms.empty()) return;
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 6); if (n <= 0) return; exe[n] = 0; strcat(exe, ".syms");
  FILE *f = fopen(exe, "r"); if (!f) return;
  char l[1000]; while (fgets(l, sizeof l, f)) { u64 a; char t, nm[900]; if (sscanf(l, "%llx %c %899s", (unsigned long long *)&a, &t, nm) == 3) g_syms.push_back({a, nm}); }
  fclose(f);
  std::sort(g_syms.begin(), g_syms.end());
}
std::string sym_of(uintptr_t pc) {
  load_syms();
  u64 off = pc - (u64)&__executable_start;
  auto it = std::upper_bound(g_syms.begin(), g_syms.end(), std::make_pair(off, std::string("\x7f")));
  if (it == g_syms.begin() || off > (1ull << 32)) return "?";
  --it;
  return it->second;
}
static void on_asan(const char *rep) {
  std::string s(rep), type = "error";
  size_t p = s.find("AddressSanitizer: "); if (p != std::string::npos) { p += 18; size_t e = s.find_first_of(" \n", p); type = s.substr(p, e - p); }
  while (!type.empty() && type.back() == ':') type.pop_back();
  if (type == "attempting" || type == "unknown-crash") { if (s.find("double-free") != std::string::npos) type = "double-free"; else if (s.find("bad-free") != std::string::npos || s.find("not malloc()-ed") != std::string::npos) type = "bad-free"; }
  std::string fn, stack; int nf = 0;
  size_t q = s.find("    #0 ");
  while (q != std::string::npos && nf < 12) {
    u64 pc = 0; size_t x = s.find("0x", q); if (x == std::string::npos) break;
    pc = strtoull(s.c_str() + x, nullptr, 16);
    std::string n = sym_of(pc - 1);
    if (nf < 8) stack += (stack.empty() ? "" : " < ") + n;
    bool skip = n.compare(0, 4, "sim_") == 0 || n.compare(0, 2, "_Z") == 0 || n.find("asan") != std::string::npos || n.find("interceptor") != std::string::npos || n == "?" || n.find("___") != std::string::npos || n.compare(0, 6, "__inte") == 0;
    if (fn.empty() && !skip) fn = n;
    nf++;
    size_t e = s.find('\n', q); if (e == std::string::npos) break;
    if (s.compare(e + 1, 5, "    #")) break;
    q = e + 1;
  }
  std::string head; { size_t e = s.find('\n', p == std::string::npos ? 0 : p); head = p == std::string::npos ? "" : s.substr(p, e - p); }
  // addresses differ between builds of the same code: keep them out of the message
  size_t ad = head.find(" on address"); if (ad != std::string::npos) head.resize(ad); ad = head.find(" on unknown address"); if (ad != std::string::npos) head.resize(ad); ad = head.find(": memory ranges"); if (ad != std::string::npos) head.resize(ad);
  { size_t x; while ((x = head.find("0x")) != std::string::npos) { size_t y = x + 2; while (y < head.size() && isxdigit((unsigned char)head[y])) y++; head.replace(x, y - x, "ADDR"); } }
  g_on = false;
  violation("*", "memory:" + type + "@" + fn, strf("memory error %s in %s", head.substr(0, 80).c_str(), stack.c_str()));
  if (g_verbose) fprintf(stderr, "%s\n", rep);
  extern void write_result(int); write_result(2);
}
// ---------- result of one life of the server ----------
void write_result(int fin) {
  Shm *m = g_shm; if (!m) return;
  m->hash = g_hash; m->k = g_k; m->simtime_ns = g_now; m->nconn = g_conns.size();
  std::string t;
  for (auto &v : g_viol) t += "V\t" + v.prop + "\t" + v.cls + "\t" + v.detail + "\n";
  for (auto &c : g_counts) t += "C\t" + c.first + "\t" + std::to_string(c.second) + "\n";
  m->len = std::min(t.size(), sizeof m->text); memcpy(m->text, t.data(), m->len);
  const auto &d = recorded_devs(); std::string ds;
  for (auto &x : d) { ds += std::to_string(x.k); ds += ' '; ds += std::to_string(x.v); ds += '\n'; }
  m->ndevs = d.size(); m->devlen = ds.size() <= sizeof m->devs ? ds.size() : 0; memcpy(m->devs, ds.data(), m->devlen);
  m->finished = fin;
}
void result_error(const char *msg) { if (g_shm) { snprintf(g_shm->text, sizeof g_shm->text, "E\t%s\n", msg); g_shm->len = strlen(g_shm->text); g_shm->finished = 3; } fprintf(stderr, "harness: %s\n", msg); }
static volatile int g_finishing = 0;
void finish_run(const char *reason) {
  if (g_finishing) { for (;;) pause(); }
  g_finishing = 1;
  g_on = false;
  ev("run ends: %s", reason);
  if (!strcmp(reason, "crash")) { count("fault.crash"); g_shm->statelen = 0; }
  if (!strcmp(reason, "crash") || !strcmp(reason, "end")) {}
  else if (!strcmp(reason, "exit")) {}
  oracle_checks(reason);
  if (!strcmp(reason, "crash")) {
    std::string st = strf("%llu %lld\n", (unsigned long long)g_now, (long long)g_wall_off) + vfs_dump();
    if (st.size() <= sizeof g_shm->state) { memcpy(g_shm->state, st.data(), st.size()); g_shm->statelen = st.size(); }
  }
  write_result(1);
  _exit(0);
}
static void world_event(const WorldEvent &e) {
  if (e.kind == "wallstep") { g_wall_off += e.arg * (int64_t)MS; g_wall_hist.push_back({g_now, g_wall_off}); count("fault.wall_step"); ev("wall clock steps by %lld ms", (long long)e.arg); }
  else if (e.kind == "put") { vfs_put(e.path, e.data); count("admin_replace"); ev("admin replaces %s", e.path.c_str()); }
  else if (e.kind == "append") { vfs_append(e.path, e.data); count("admin_append"); ev("admin appends to %s", e.path.c_str()); }
  else if (e.kind == "truncate") { vfs_truncate(e.path, (size_t)e.arg); count("admin_truncate"); ev("admin truncates %s", e.path.c_str()); }
  else if (e.kind == "rm") { vfs_remove(e.path); count("admin_remove"); ev("admin removes %s", e.path.c_str()); }
  else if (e.kind == "rotate") oracle_rotate();
  else if (e.kind == "rmtmp") {
    // whatever is being stored may be lost, what comes later must work
    vfs_remove("/tmp/wayuu"); count("admin_removes_tmp"); ev("the folder of temporary files is removed");
    for (auto &c : g_conns) if (c->dispatched && !c->closed) { c->fault_files++; c->tmp_removed = true; }
  }
}
[[noreturn]] static void child_main(const Scenario &sc, int epoch, const std::string &state) {
  g_sc = &sc; g_epoch = epoch;
  if (__asan_set_error_report_callback) __asan_set_error_report_callback(on_asan);
  signal(SIGPIPE, SIG_IGN);
  sched_init(sc);
  vfs_reset();
  if (epoch == 0) {
    for (const char *d : {"/tmp", "/var/log", "/srv/data"}) vfs_mkdir_p(d);
    for (auto &d : sc.dirs) vfs_mkdir_p(d);
    for (auto &f : sc.files) vfs_put(f.first, f.second);
  } else {
    unsigned long long t = 0; long long w = 0; sscanf(state.c_str(), "%llu %lld", &t, &w);
    int64_t wall = (int64_t)t + w; g_wall_off = wall + 2 * (int64_t)SEC - (int64_t)g_now;
    vfs_load(state, state.find('\n') + 1);
  }
  stdio_init();
  tls_seed(sc.seed + epoch);
  oracle_setup();
  net_start(sc);
  for (auto &e : sc.events) if (e.epoch < 0 || e.epoch == epoch) at(g_now + e.at * US, [&e] { world_event(e); });
  for (size_t i = 0; i < sc.clients.size(); i++) if (sc.clients[i].group != 1 && sc.clients[i].epoch == epoch) client_connect(&sc.clients[i], (int)i, false, g_now + sc.clients[i].at * US);
  g_on = true;
  server_main_thread(sc);
  finish_run("end");
}
struct Out {
  bool ok = false, timeout = false; std::string err;
  std::vector<Viol> v; std::map<std::string, u64> counts;
  u64 hash = 0, k = 0, simtime = 0, nconn = 0, ndevs = 0; int epochs = 0;
  std::vector<std::vector<Dev>> devs;
};
static uint8_t g_all_edges[8192];
static bool g_inproc = false;
static double g_wall_limit = 60;
static double nowd() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static Out run(const Scenario &sc) {
  Out o; std::string state;
  int n = 1 + (int)sc.crash.size();
  for (int e = 0; e < n; e++) {
    g_shm->finished = 0; g_shm->len = g_shm->statelen = g_shm->devlen = 0; g_shm->hash = 0;
    memset(g_shm->edges, 0, sizeof g_shm->edges);
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { o.err = "fork"; return o; }
    if (p == 0) {
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      if (!g_verbose) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 2); }
      child_main(sc, e, state);
    }
    double t0 = nowd(); int st = 0; bool done = false;
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) { done = true; break; }
      if (nowd() - t0 > g_wall_limit) break;
      struct timespec w = {0, 50000000}; sigtimedwait(&ss, nullptr, &w);
    }
    if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); o.timeout = true; o.err = "wall clock limit"; return o; }
    for (size_t i = 0; i < sizeof g_all_edges; i++) g_all_edges[i] |= g_shm->edges[i];
    o.epochs++;
    if (!g_shm->finished) {
      if (WIFSIGNALED(st)) { o.v.push_back({"*", strf("killed-by-signal-%d", WTERMSIG(st)), "the process running the server was killed by a signal"}); o.ok = true; return o; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.v.push_back({"*", "memory:unreported", "memory error so severe that no report could be produced"}); o.ok = true; return o; }
      o.err = strf("run ended without a result (exit status %d)", WEXITSTATUS(st)); return o;
    }
    std::istringstream is(std::string(g_shm->text, g_shm->len)); std::string l;
    if (g_shm->finished == 3) { o.err = std::string(g_shm->text, g_shm->len); return o; }
    while (std::getline(is, l)) {
      std::vector<std::string> f; size_t a = 0; for (;;) { size_t b = f.size() < 3 ? l.find('\t', a) : std::string::npos; f.push_back(l.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
      if (f[0] == "V" && f.size() == 4) o.v.push_back({f[1], f[2], f[3]});
      if (f[0] == "C" && f.size() == 3) o.counts[f[1]] += strtoull(f[2].c_str(), nullptr, 10);
    }
    o.hash = o.hash * 1099511628211ull ^ g_shm->hash; o.k += g_shm->k; o.simtime += g_shm->simtime_ns; o.nconn += g_shm->nconn; o.ndevs += g_shm->ndevs;
    std::vector<Dev> dv; { const char *q = g_shm->devs, *end = q + g_shm->devlen; while (q < end) { char *x; u64 k = strtoull(q, &x, 10); int v = (int)strtol(x, &x, 10); dv.push_back({k, v}); q = x + 1; } }
    o.devs.push_back(dv);
    if (!g_shm->statelen) break;
    state.assign(g_shm->state, g_shm->statelen);
  }
  o.ok = true;
  return o;
}
static const Viol *match(const Out &o, const std::string &prop, const std::string &cls) {
  for (auto &v : o.v) if ((prop.empty() || v.prop == prop || v.prop == "*") && (cls.empty() || v.cls == cls)) return &v;
  return nullptr;
}
static Scenario traced(const Scenario &s, const Out &o) { Scenario t = s; t.sched_mode = 0; t.devs.clear(); t.epoch_devs = o.devs; return t; }

// ---------- minimiser ----------
struct Min {
  std::string prop, cls; double deadline; int runs = 0;
  bool test(const Scenario &s) { if (nowd() > deadline) return false; runs++; Out o = run(s); return o.ok && match(o, prop, cls); }
  template <class T, class F> void ddmin(Scenario &best, std::vector<T> items, F set) {
    // delete chunks of items; set(scenario, items) puts a list into a scenario
    size_t n = 2;
    while (!items.empty() && nowd() < deadline) {
      n = std::min(n, items.size());
      size_t chunk = (items.size() + n - 1) / n; bool hit = false;
      for (size_t i = 0; i < items.size() && nowd() < deadline; i += chunk) {
        std::vector<T> t(items.begin(), items.begin() + i); t.insert(t.end(), items.begin() + std::min(items.size(), i + chunk), items.end());
        Scenario s = best; set(s, t);
        if (test(s)) { best = s; items = t; hit = true; n = std::max<size_t>(n - 1, 2); break; }
      }
      if (!hit) { if (chunk <= 1) break; n = std::min(items.size(), n * 2); }
    }
  }
  Scenario go(Scenario best) {
    // 1. schedule: none at all, then fewer deviations. 2. inputs. 3. schedule again.
    for (int pass = 0; pass < 2 && nowd() < deadline; pass++) {
      { Scenario s = best; bool any = false; for (auto &d : s.epoch_devs) { any |= !d.empty(); d.clear(); } if (any && test(s)) best = s; }
      // clients: fault and client numbers refer to positions, so a removed client is emptied instead
      { std::vector<int> ids; for (size_t i = 0; i < best.clients.size(); i++) if (best.clients[i].group != 9) ids.push_back((int)i);
        ddmin(best, ids, [](Scenario &s, const std::vector<int> &keep) { std::set<int> k(keep.begin(), keep.end()); for (size_t i = 0; i < s.clients.size(); i++) if (!k.count((int)i)) { s.clients[i].epoch = 99; s.clients[i].group = 9; s.clients[i].acts.clear(); } }); }
      bool broken = best.o("fatal") || best.o("maybe_fatal"); // set-up is broken on purpose: what breaks it stays
      if (!broken) ddmin(best, best.faults, [](Scenario &s, const std::vector<Fault> &f) { s.faults = f; });
      ddmin(best, best.events, [](Scenario &s, const std::vector<WorldEvent> &f) { s.events = f; });
      if (!broken) ddmin(best, best.files, [](Scenario &s, const std::vector<std::pair<std::string, std::string>> &f) { s.files = f; });
      for (size_t c = 0; c < best.clients.size(); c++) if (best.clients[c].group != 9) {
        if (best.clients[c].acts.size() > 1) { // merge all sends
          Scenario s = best; std::vector<Action> a; for (auto &x : s.clients[c].acts) if (x.type == 'S' && !a.empty() && a.back().type == 'S') a.back().data += x.data; else a.push_back(x);
          if (a.size() < s.clients[c].acts.size()) { s.clients[c].acts = a; if (test(s)) best = s; }
        }
        ClientSpec d; ClientSpec &o = best.clients[c];
        if (o.read_rate || o.read_stop >= 0 || o.window != d.window) { Scenario s = best; s.clients[c].read_rate = 0; s.clients[c].read_stop = -1; s.clients[c].window = 65536; s.clients[c].persist = false; if (test(s)) best = s; }
      }
      for (size_t e = 0; e < best.epoch_devs.size(); e++) ddmin(best, best.epoch_devs[e], [e](Scenario &s, const std::vector<Dev> &d) { s.epoch_devs[e] = d; });
    }
    return best;
  }
};
static std::string slurp(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void write_file(const std::string &p, const std::string &d) { std::ofstream f(p + ".tmp"); f << d; f.close(); rename((p + ".tmp").c_str(), p.c_str()); }
static void print_out(const Out &o) {
  if (!o.ok) printf("ERROR %s\n", o.err.c_str());
  for (auto &v : o.v) printf("V\t%s\t%s\t%s\n", v.prop.c_str(), v.cls.c_str(), v.detail.c_str());
  printf("R\thash=%016llx k=%llu simtime=%.6f conns=%llu devs=%llu epochs=%d\n", (unsigned long long)o.hash, (unsigned long long)o.k, o.simtime / 1e9, (unsigned long long)o.nconn, (unsigned long long)o.ndevs, o.epochs);
}
static int usage() { fprintf(stderr, "usage: wsim gen PROP SEED | run FILE [-v] | seed PROP SEED [-v] | replay FILE | det PROP SEED0 N | batch PROP SEED0 STRIDE SECONDS OUTDIR WORKER KNOWNFILE MAXRUNS\n"); return 2; }
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static int batch(int argc, char **argv) {
  if (argc < 9) return usage();
  std::string prop = argv[2]; u64 seed0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10); double secs = atof(argv[5]); std::string dir = argv[6]; int w = atoi(argv[7]);
  std::string known = slurp(argv[8]); u64 maxruns = argc > 9 ? strtoull(argv[9], 0, 10) : ~0ull;
  std::set<std::string> kn; { std::istringstream is(known); std::string l; while (std::getline(is, l)) if (!l.empty()) kn.insert(l); } // "prop<TAB>class"
  double t0 = nowd();
  std::set<u64> hashes; std::map<std::string, u64> counts, vseen; u64 runs = 0, lives = 0, k = 0, conns = 0, devs = 0, timeouts = 0, errors = 0, faulty = 0, detruns = 0; double simtime = 0;
  std::string samples, problems; std::set<std::string> done; int found = 0;
  for (u64 i = 0; runs < maxruns && nowd() - t0 < secs; i++) {
    u64 seed = seed0 + (u64)w + i * stride;
    Scenario s = scenario_gen(prop, seed);
    Out o = run(s);
    runs++;
    if (!o.ok) { if (o.timeout) timeouts++; else errors++; problems += strf("seed %llu: %s\n", (unsigned long long)seed, o.err.c_str()); if (o.timeout || errors > 20) { if (errors > 20) break; } continue; }
    hashes.insert(o.hash); lives += o.epochs; k += o.k; conns += o.nconn; devs += o.ndevs; simtime += o.simtime / 1e9;
    bool anyf = false; for (auto &c : o.counts) { counts[c.first] += c.second; if (c.first.compare(0, 6, "fault.") == 0) anyf = true; }
    if (anyf) faulty++;
    if (i < 2 && w == 0) samples += strf("%s{\"seed\":%llu,\"conns\":%llu,\"steps\":%llu,\"hash\":\"%016llx\"}", samples.empty() ? "" : ",", (unsigned long long)seed, (unsigned long long)o.nconn, (unsigned long long)o.k, (unsigned long long)o.hash);
    // the same seed must give the same execution
    if (runs % 97 == 5 && nowd() - t0 < secs) { Out o2 = run(s); detruns++; if (!o2.ok || o2.hash != o.hash) { errors++; problems += strf("seed %llu: not deterministic (%016llx %016llx)\n", (unsigned long long)seed, (unsigned long long)o.hash, (unsigned long long)o2.hash); } }
    for (auto &v : o.v) {
      vseen[v.prop + " " + v.cls]++;
      if (v.prop != prop && v.prop != "*") continue;
      std::string key = v.prop + "\t" + v.cls;
      if (done.count(key)) continue;
      done.insert(key);
      bool isknown = kn.count(prop + "\t" + v.cls);
      if (isknown) { printf("KNOWN\t%s\t%s\t%s\n", prop.c_str(), v.cls.c_str(), v.detail.c_str()); continue; }
      if (found >= 2) continue;
      // replayable? first by recorded trace
      Scenario tr = traced(s, o);
      Out o2 = run(tr);
      if (!o2.ok || !match(o2, prop, v.cls)) { errors++; problems += strf("seed %llu: violation %s %s does not replay\n", (unsigned long long)seed, v.prop.c_str(), v.cls.c_str()); continue; }
      Min m; m.prop = prop; m.cls = v.cls; m.deadline = nowd() + (found ? 8 : 25);
      Scenario b = m.go(tr);
      Out o3 = run(b), o4 = run(b);
      const Viol *fv = o3.ok ? match(o3, prop, v.cls) : nullptr;
      if (!fv || o4.hash != o3.hash) { b = tr; o3 = o2; fv = match(o3, prop, v.cls); }
      std::string path = dir + strf("/%s-w%d-%d.replay", prop.c_str(), w, found);
      std::string text = strf("# violation of %s: %s\n# %s\n# seed %llu, minimised in %d runs; hash %016llx\n# replay: build/wsim replay FILE\n", prop.c_str(), v.cls.c_str(), fv->detail.c_str(), (unsigned long long)seed, m.runs, (unsigned long long)o3.hash) + scenario_write(b);
      size_t q = text.rfind("end\n"); text.insert(q, strf("expect %s %s %016llx\n", fv->prop == "*" ? prop.c_str() : fv->prop.c_str(), v.cls.c_str(), (unsigned long long)o3.hash));
      write_file(path, text);
      printf("FOUND\t%s\t%s\t%s\t%s\n", prop.c_str(), v.cls.c_str(), path.c_str(), fv->detail.c_str());
      fflush(stdout);
      found++;
    }
    if (found) break;
  }
  u64 edges = 0; for (auto e : g_all_edges) edges += e;
  std::string js = strf("{\"runs\":%llu,\"lives\":%llu,\"steps\":%llu,\"conns\":%llu,\"deviations\":%llu,\"simtime\":%.3f,\"timeouts\":%llu,\"errors\":%llu,\"faulty_runs\":%llu,\"determinism_reruns\":%llu,\"edges\":%llu,\"edges_total\":%u,\"wall\":%.2f,\"samples\":[%s],\"counts\":{",
    (unsigned long long)runs, (unsigned long long)lives, (unsigned long long)k, (unsigned long long)conns, (unsigned long long)devs, simtime, (unsigned long long)timeouts, (unsigned long long)errors, (unsigned long long)faulty, (unsigned long long)detruns, (unsigned long long)edges, guard_count(), nowd() - t0, samples.c_str());
  bool f = true; for (auto &c : counts) { js += strf("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; }
  js += "},\"violations\":{"; f = true; for (auto &c : vseen) { js += strf("%s\"%s\":%llu", f ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); f = false; }
  js += "},\"problems\":\"" + jesc(problems.substr(0, 3000)) + "\",\"edgemap\":\"";
  for (size_t i = 0; i < sizeof g_all_edges; i += 4) { int x = 0; for (int b = 0; b < 4; b++) x |= g_all_edges[i + b] << b; js += "0123456789abcdef"[x]; }
  js += "\",\"hashes\":["; f = true; for (auto h : hashes) { js += strf("%s%llu", f ? "" : ",", (unsigned long long)(h >> 12)); f = false; }
  js += "]}\n";
  write_file(dir + strf("/stats-%d.json", w), js);
  return 0;
}
int main(int argc, char **argv) {
  if (!getenv("WSIM_NOASLR")) {
    setenv("WSIM_NOASLR", "1", 1);
    setenv("ASAN_OPTIONS", "symbolize=0:detect_leaks=0:halt_on_error=1:abort_on_error=0:print_legend=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:use_sigaltstack=0:detect_stack_use_after_return=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=64:malloc_context_size=8:max_malloc_fill_size=16777216:malloc_fill_byte=190:exitcode=77:intercept_tls_get_addr=0", 1);
    int p = personality(0xffffffff);
    if (p != -1) personality((unsigned long)p | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc < 3) return usage();
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, nullptr);
  g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tls_global_init();
  load_syms();
  std::string cmd = argv[1];
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 2; i < argc; i++) if (!strcmp(argv[i], "-v")) { g_verbose = true; g_wall_limit = 600; }
  if (cmd == "gen") { if (argc < 4) return usage(); printf("%s", scenario_write(scenario_gen(argv[2], strtoull(argv[3], 0, 10))).c_str()); return 0; }
  if (cmd == "seed") { if (argc < 4) return usage(); Out o = run(scenario_gen(argv[2], strtoull(argv[3], 0, 10))); print_out(o); if (g_verbose) for (auto &c : o.counts) printf("C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second); return 0; }
  if (cmd == "det") {
    if (argc < 5) return usage();
    u64 s0 = strtoull(argv[3], 0, 10); int n = atoi(argv[4]), bad = 0;
    for (int i = 0; i < n; i++) {
      Scenario s = scenario_gen(argv[2], s0 + i); Out a = run(s), b = run(s), c = run(traced(s, a));
      std::string err; Scenario s2; scenario_read(scenario_write(traced(s, a)), s2, err); Out d = run(s2);
      if (a.hash != b.hash || a.hash != c.hash || a.hash != d.hash || !a.ok) { bad++; printf("seed %llu: %016llx %016llx %016llx %016llx %s %s\n", (unsigned long long)(s0 + i), (unsigned long long)a.hash, (unsigned long long)b.hash, (unsigned long long)c.hash, (unsigned long long)d.hash, a.err.c_str(), err.c_str()); }
    }
    printf("%d of %d not deterministic\n", bad, n); return bad != 0;
  }
  if (cmd == "run" || cmd == "replay") {
    std::string text = slurp(argv[2]), err; Scenario s;
    if (!scenario_read(text, s, err)) { fprintf(stderr, "bad scenario: %s\n", err.c_str()); return 2; }
    Out o = run(s); print_out(o);
    if (cmd == "run") return o.ok ? 0 : 2;
    size_t p = text.find("\nexpect "); if (p == std::string::npos) return o.v.empty() ? 0 : 1;
    std::istringstream is(text.substr(p + 8)); std::string pr, cl, h; is >> pr >> cl >> h;
    const Viol *v = match(o, pr, cl);
    if (!v) { printf("NOT REPRODUCED %s %s\n", pr.c_str(), cl.c_str()); return 0; }
    printf("REPRODUCED %s %s%s\n", pr.c_str(), cl.c_str(), strf("%016llx", (unsigned long long)o.hash) == h ? " (identical execution)" : " (execution differs: the code or the simulator changed)");
    return 1;
  }
  if (cmd == "batch") return batch(argc, argv);
  if (cmd == "survey") { // every violation of every property, with the first seed that shows it
    if (argc < 5) return usage();
    u64 s0 = strtoull(argv[3], 0, 10); int n = atoi(argv[4]); std::map<std::string, std::pair<u64, std::pair<u64, std::string>>> m; int bad = 0;
    for (int i = 0; i < n; i++) { Out o = run(scenario_gen(argv[2], s0 + i)); if (!o.ok) { bad++; printf("%s seed %llu: %s\n", argv[2], (unsigned long long)s0 + i, o.err.c_str()); continue; } for (auto &v : o.v) { auto &x = m[v.prop + " " + v.cls]; if (!x.first++) x.second = {s0 + i, v.detail}; } }
    for (auto &x : m) printf("%s: %llu of %d: %s (seed %llu) %s\n", argv[2], (unsigned long long)x.second.first, n, x.first.c_str(), (unsigned long long)x.second.second.first, x.second.second.second.substr(0, 260).c_str());
    return 0;
  }
  return usage();
}
