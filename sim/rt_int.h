// Shared between the runtime's own files.
#pragma once
#include "rt.h"
#include <pthread.h>

namespace sim {

struct Choice { uint8_t kind; uint32_t ord; uint32_t val; };
constexpr uint32_t MAXCHOICES = 1u << 22;
constexpr int MAXPROBES = 256;
constexpr uint32_t EDGE_BITS = 1u << 16;

enum RunStatus { RS_NONE, RS_OK, RS_VIOLATION, RS_FOREIGN, RS_ERROR };

struct Result {              // In shared memory, written by the run's process.
  int status;
  char props[128];
  char cls[160];
  char msg[4096];
  char stage[128];
  uint64_t hash, steps, switches, simtime, allocs;
  uint64_t kindCount[K_COUNT];
  uint64_t faults[F_COUNT];
  uint32_t nchoices;
  uint32_t probes;
  char probeName[MAXPROBES][48];
  uint64_t probeCount[MAXPROBES];
  uint8_t edges[EDGE_BITS / 8];
  Choice choices[MAXCHOICES];
};

struct RunConfig {
  bool listMode;
  uint64_t seed;
  const Choice* list; uint32_t listCount;
  bool trace;
  const char* prop;
};

extern Result* g_res;
extern RunConfig g_cfg;
// Runs the workload in the current process, never returns.
[[noreturn]] void runChild(const Workload* w, const RunConfig& cfg, Result* res);
extern Workload* g_workloads;
void rtGlobalInit();
bool isRepoPc(const void* pc);
bool heapFind(const void* p);

struct Fiber;
}
long rawSyscall(long n, long a, long b, long c, long d, long e, long f);
