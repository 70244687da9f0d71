// Scenario text format: one item per line, fields separated by blanks, strings escaped.
#include "scenario.h"
#include <sstream>
#include <cstdio>
#include <cstdlib>

std::string esc(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '%' || c <= 32 || c >= 127) { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    else o += (char)c;
  }
  return o.empty() ? "%" : o;
}
std::string unesc(const std::string &s) {
  if (s == "%") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0 + 0 && i + 2 <= s.size() - 1) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += s[i];
  }
  return o;
}
static std::string devs_str(const std::vector<Dev> &d) {
  std::string o = std::to_string(d.size());
  for (auto &x : d) { o += ' '; o += std::to_string(x.k); o += ':'; o += std::to_string(x.v); }
  return o;
}
std::string scenario_write(const Scenario &s) {
  std::ostringstream o;
  o << "wayuu-sim 1\n";
  o << "prop " << s.prop << "\nseed " << s.seed << "\nmode " << s.mode << "\n";
  o << "flags " << s.embed << ' ' << s.tls << ' ' << s.debug << ' ' << s.rawhandler << "\n";
  o << "root " << esc(s.root) << "\n";
  for (auto &k : s.opt) o << "opt " << k.first << ' ' << k.second << "\n";
  for (auto &d : s.dirs) o << "dir " << esc(d) << "\n";
  for (auto &f : s.files) o << "file " << esc(f.first) << ' ' << esc(f.second) << "\n";
  for (auto &r : s.routes) o << "route " << esc(r.tmpl) << ' ' << r.handler << ' ' << r.filter << "\n";
  for (auto &c : s.clients) {
    o << "client " << c.ip << ' ' << c.at << ' ' << c.tls << ' ' << c.epoch << ' ' << c.read_rate << ' ' << c.read_stop << ' ' << c.window << ' '
      << c.persist << ' ' << c.resume << ' ' << c.tls_cut << ' ' << c.tls_cut_kind << ' ' << c.group << "\n";
    for (auto &a : c.acts) o << "act " << a.type << ' ' << a.delay << ' ' << esc(a.data) << "\n";
  }
  for (auto &f : s.faults) o << "fault " << f.kind << ' ' << f.client << ' ' << f.off << ' ' << f.err << ' ' << f.arg << ' ' << esc(f.path) << ' ' << esc(f.op) << ' ' << f.epoch << "\n";
  for (auto &e : s.events) o << "event " << e.at << ' ' << e.kind << ' ' << e.arg << ' ' << esc(e.path) << ' ' << esc(e.data) << ' ' << e.epoch << "\n";
  for (auto &j : s.jobs) { o << "job " << j.type << ' ' << esc(j.path) << ' ' << j.delay << ' ' << j.items.size(); for (auto &i : j.items) o << ' ' << esc(i); o << "\n"; }
  if (!s.crash.empty()) { o << "crash"; for (auto c : s.crash) o << ' ' << c; o << "\n"; }
  o << "sched " << s.sched_mode << ' ' << s.sched_seed << "\n";
  if (!s.devs.empty()) o << "devs " << devs_str(s.devs) << "\n";
  for (size_t i = 0; i < s.epoch_devs.size(); i++) o << "edevs " << i << ' ' << devs_str(s.epoch_devs[i]) << "\n";
  o << "end\n";
  return o.str();
}
static void read_devs(std::istringstream &is, std::vector<Dev> &d) {
  size_t n; is >> n; d.clear();
  for (size_t i = 0; i < n; i++) { std::string t; if (!(is >> t)) break; size_t c = t.find(':'); if (c == std::string::npos) break; d.push_back({strtoull(t.c_str(), nullptr, 10), atoi(t.c_str() + c + 1)}); }
}
bool scenario_read(const std::string &text, Scenario &s, std::string &err) {
  s = Scenario();
  std::istringstream in(text);
  std::string line;
  bool first = true, ended = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string k, a, b;
    is >> k;
    if (first) { if (k != "wayuu-sim") { err = "bad header"; return false; } first = false; continue; }
    if (k == "prop") is >> s.prop;
    else if (k == "seed") is >> s.seed;
    else if (k == "mode") is >> s.mode;
    else if (k == "flags") is >> s.embed >> s.tls >> s.debug >> s.rawhandler;
    else if (k == "root") { is >> a; s.root = unesc(a); }
    else if (k == "opt") { int64_t v; is >> a >> v; s.opt[a] = v; }
    else if (k == "dir") { is >> a; s.dirs.push_back(unesc(a)); }
    else if (k == "file") { is >> a >> b; s.files.push_back({unesc(a), unesc(b)}); }
    else if (k == "route") { Route r; is >> a >> r.handler >> r.filter; r.tmpl = unesc(a); s.routes.push_back(r); }
    else if (k == "client") { ClientSpec c; is >> c.ip >> c.at >> c.tls >> c.epoch >> c.read_rate >> c.read_stop >> c.window >> c.persist >> c.resume >> c.tls_cut >> c.tls_cut_kind >> c.group; s.clients.push_back(c); }
    else if (k == "act") { Action c; is >> c.type >> c.delay >> a; c.data = unesc(a); if (!s.clients.empty()) s.clients.back().acts.push_back(c); }
    else if (k == "fault") { Fault f; is >> f.kind >> f.client >> f.off >> f.err >> f.arg >> a >> b >> f.epoch; f.path = unesc(a); f.op = unesc(b); s.faults.push_back(f); }
    else if (k == "event") { WorldEvent e; is >> e.at >> e.kind >> e.arg >> a >> b >> e.epoch; e.path = unesc(a); e.data = unesc(b); s.events.push_back(e); }
    else if (k == "job") { ConfJob j; size_t n; is >> j.type >> a >> j.delay >> n; j.path = unesc(a); for (size_t i = 0; i < n; i++) { is >> b; j.items.push_back(unesc(b)); } s.jobs.push_back(j); }
    else if (k == "crash") { uint64_t v; while (is >> v) s.crash.push_back(v); }
    else if (k == "sched") is >> s.sched_mode >> s.sched_seed;
    else if (k == "devs") read_devs(is, s.devs);
    else if (k == "edevs") { size_t i; is >> i; if (s.epoch_devs.size() <= i) s.epoch_devs.resize(i + 1); read_devs(is, s.epoch_devs[i]); }
    else if (k == "expect") continue;
    else if (k == "end") { ended = true; break; }
    else { err = "unknown line: " + k; return false; }
  }
  if (!ended) { err = "truncated"; return false; }
  return true;
}
