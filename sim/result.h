// Result area shared between a run (child process) and the batch process.
#pragma once
#include <cstdint>
#include <string>
struct Shm {
  volatile int finished;  // 1 regular end, 2 memory error, 3 harness error
  uint64_t hash, k, simtime_ns, nconn, edges_hit, ndevs;
  uint8_t edges[8192];
  uint32_t len;           // text: counters and violations
  char text[1 << 20];
  uint32_t statelen;      // state handed to the next epoch
  char state[6 << 20];
  uint32_t devlen;
  char devs[6 << 20];
};
extern Shm *g_shm;
void result_error(const char *msg);
static inline void result_edge(uint32_t g) { if (g_shm) g_shm->edges[g & 8191] = 1; }
