// Scenario: everything that decides a run, except the code under test.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Action {
  uint64_t delay = 0; // us after the previous action
  char type = 'S';    // S send, F fin, R rst, C close
  std::string data;
};
struct ClientSpec {
  std::string ip = "10.0.0.1";
  uint64_t at = 1000; // us
  bool tls = false;
  int epoch = 0;
  uint64_t read_rate = 0; // 0: reads at once; else bytes per ms
  int64_t read_stop = -1; // stop reading after this many bytes (stalled reader)
  uint64_t window = 65536;
  bool persist = false;   // stays stalled until the release phase
  uint64_t resume = 20000; // us after which a non-persistent stalled reader goes on
  int64_t tls_cut = -1;   // TLS client: after this many bytes on the wire ...
  char tls_cut_kind = 'F'; // ... F fin, R reset, H hang
  int group = 0;          // 0 normal; others are generator notes
  std::vector<Action> acts;
};
struct Fault {
  std::string kind; // accept recv send file pthread startup
  int client = -1;
  int64_t off = 0;  // byte offset (recv/send) or nth occurrence (1-based)
  int err = 0;      // errno, 0 = partial transfer
  int64_t arg = 0;  // cap for partial transfers
  std::string path, op;
  int epoch = -1;   // -1 any
};
struct WorldEvent {
  uint64_t at = 0; // us
  std::string kind; // wallstep put rm
  int64_t arg = 0;
  std::string path, data;
  int epoch = -1;
};
struct Route { std::string tmpl; int handler = 0; int filter = 0; };
struct ConfJob { int type = 0; std::string path; std::vector<std::string> items; uint64_t delay = 0; };
struct Dev { uint64_t k; int v; };

static const uint64_t CRASH_OPS = 1ull << 40;
struct Scenario {
  std::string prop = "C00";
  uint64_t seed = 0;
  std::string mode = "server"; // server | conf
  bool embed = false;          // ws_launch called by an application instead of main()
  bool tls = false;
  bool debug = false;          // -d
  bool rawhandler = false;     // embedded application with its own socket handler
  std::string root = "/etc/wayuu";
  std::map<std::string, int64_t> opt; // fdlimit eager heapfill maxthreads diskcap rounds ...
  std::vector<std::pair<std::string, std::string>> files;
  std::vector<std::string> dirs;
  std::vector<Route> routes;
  std::vector<ClientSpec> clients;
  std::vector<Fault> faults;
  std::vector<WorldEvent> events;
  std::vector<ConfJob> jobs;
  std::vector<uint64_t> crash; // when the process is killed, per epoch: choice index, or CRASH_OPS + number of file system changes
  // schedule
  int sched_mode = 1; // 1 random, 0 trace
  uint64_t sched_seed = 0;
  std::vector<Dev> devs;
  std::vector<std::vector<Dev>> epoch_devs; // trace per epoch
  int64_t o(const std::string &k, int64_t d = 0) const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};

std::string scenario_write(const Scenario &);
bool scenario_read(const std::string &text, Scenario &, std::string &err);
Scenario scenario_gen(const std::string &prop, uint64_t seed);
std::string esc(const std::string &);
std::string unesc(const std::string &);
