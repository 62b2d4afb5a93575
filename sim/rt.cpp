#include "rt_int.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <execinfo.h>

extern "C" char sim_text_repo_begin[], sim_text_race_begin[], sim_text_race_strict[], sim_text_repo_end[];

namespace sim {

Result* g_res;
RunConfig g_cfg;
Workload* g_workloads;

// ------------------------------------------------------------------ fibers ----
constexpr size_t STACK = 256 * 1024;
constexpr uintptr_t STACKS_AT = 0x200000000000ull;
constexpr uintptr_t ARENA_AT = 0x100000000000ull;
constexpr size_t ARENA_SIZE = 1ull << 30;
constexpr uintptr_t SHADOW_AT = 0x180000000000ull;   // 1 byte per 8.
constexpr uintptr_t OWNER_AT = 0x190000000000ull;    // 1 byte per 8: who accessed atomically.
constexpr uintptr_t RACE_AT = 0x1A0000000000ull;     // A RaceCell per 8 bytes.

enum FState { FS_FREE, FS_RUNNABLE, FS_BLOCKED, FS_DONE };

struct TlsDtor { void (*fn)(void*); void* obj; };

struct Fiber {
  int id;
  FState st;
  void* sp;
  char *lo, *hi;
  VC vc, acqPend, relFence;
  bool hasAcqPend, hasRelFence;
  const void* waitObj; int waitKind; bool timedOut; uint64_t waitSeq;
  uint64_t stallUntil, stallStep;
  int prio;
  uint64_t slice; uint32_t sliceMean;
  std::function<void()>* fn;
  void* (*pfn)(void*); void* parg; void* pret;
  bool detached, joined;
  int err;
  void* tls[256];
  TlsDtor dtors[64]; int ndtors;
  void* keys[64];
  char name[24];
  void* lastPc;
  uint64_t tid;
};

static Fiber g_f[MAXF];
static Fiber* cur;
static int g_nf;                 // Fibers ever created.
static bool g_inRun;
static int g_noPreempt;
static uint64_t g_clock, g_steps, g_switches;
static uint64_t g_hash;
static uint64_t g_stepCost;
static uint64_t g_consec;        // Points of the current fiber in a row.
static bool g_faultsOff;
static uint64_t g_plainSince;
static int64_t g_plainGap;       // Accesses until a preemption, <0 - never.
static uint32_t g_plainMean;
static uint64_t g_stepCap;
static char g_stage[128];

static uint32_t g_stallRate;             // Of 65536.
static bool g_faultAllowed[F_COUNT];
static uint16_t g_faultRate[F_COUNT];   // Out of 1024, per opportunity.
static uint64_t g_jumps;                 // The part of the time which passed by clock jumps.
bool inRun() { return g_inRun; }
uint64_t now() { return g_clock; }
uint64_t stepNo() { return g_steps; }
int self() { return cur ? cur->id : -1; }
const char* prop() { return g_cfg.prop; }
bool calm() { return g_stallRate == 0 && g_faultRate[F_late_timer] == 0 && g_faultRate[F_clock_jump] == 0; }
uint64_t busyTime() { return g_steps * g_stepCost; }
static uint64_t g_delays;
void noteDelay(uint64_t ns) { g_delays += ns; }
uint64_t injectedDelay() { return g_delays; }
bool on(const char* p) { return strcmp(g_cfg.prop, "*") == 0 || strcmp(g_cfg.prop, p) == 0; }
bool tracing() { return g_cfg.trace; }
void stage(const char* s) { snprintf(g_stage, sizeof(g_stage), "%s", s); traceOp("stage: %s", s); }
bool faultsAreOff() { return g_faultsOff; }

bool isRepoPc(const void* pc) { return (const char*)pc >= sim_text_repo_begin && (const char*)pc < sim_text_repo_end; }

static inline uint64_t mix64(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x;
}
void hashMix(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }

// -------------------------------------------------------------------- prng ----
static uint64_t g_rng[2];
static uint64_t rnd() {
  uint64_t s1 = g_rng[0], s0 = g_rng[1], r = s0 + s1;
  g_rng[0] = s0; s1 ^= s1 << 23; g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
static void rndSeed(uint64_t s) { g_rng[0] = mix64(s + 0x1234567); g_rng[1] = mix64(s ^ 0xabcdef9876543ull) | 1; for (int i = 0; i < 8; ++i) rnd(); }
static uint32_t rndN(uint32_t n) { return (uint32_t)((rnd() >> 11) % n); }
static bool rndP(uint32_t num, uint32_t den) { return rndN(den) < num; }
static uint32_t rndGeom(uint32_t mean) {  // >= 1
  if (mean <= 1) return 1;
  uint32_t r = 1; // cheap geometric: uniform in log-ish mixture
  uint32_t u = rndN(1000);
  double f = (u + 1) / 1001.0; // (0,1)
  double l = 0; // -ln f
  { double y = (f - 1) / (f + 1), y2 = y * y; l = -2 * (y + y * y2 / 3 + y * y2 * y2 / 5 + y * y2 * y2 * y2 / 7); if (f < 0.1) l *= 1.3; }
  r += (uint32_t)(l * mean);
  return r;
}

// ----------------------------------------------------------------- choices ----
static uint32_t g_ord[K_COUNT];
static const char* const g_kindNames[K_COUNT] = {"sched", "stall", "plain", "cfg", "input", "op", "fault", "faultarg", "net", "timer", "pick"};
const char* kindName(int k) { return k < K_COUNT ? g_kindNames[k] : "?"; }
static const char* const g_faultNames[F_COUNT] = {
#define X(n) #n,
  SIM_FAULTS(X)
#undef X
};
const char* faultName(int f) { return f < F_COUNT ? g_faultNames[f] : "?"; }

// List mode: per kind arrays sorted by ordinal.
struct ListK { const Choice** v; uint32_t n, pos; };
static ListK g_list[K_COUNT];

static void record(Kind k, uint32_t ord, uint32_t val) {
  if (val == 0) return;
  if (g_res->nchoices >= MAXCHOICES) violation("*", "stuck", "%u decisions are made and the run does not end", (unsigned)MAXCHOICES);
  g_res->choices[g_res->nchoices++] = Choice{(uint8_t)k, ord, val};
}
// Takes the value computed in the seed mode, or the listed one.
template<typename F> static inline uint32_t decide(Kind k, uint32_t n, F gen) {
  uint32_t ord = g_ord[k]++;
  uint32_t v;
  if (g_cfg.listMode) {
    ListK& l = g_list[k];
    while (l.pos < l.n && l.v[l.pos]->ord < ord) ++l.pos;
    v = (l.pos < l.n && l.v[l.pos]->ord == ord) ? l.v[l.pos]->val : 0;
    if (v >= n) v = n - 1;
  } else {
    v = gen();
  }
  record(k, ord, v);
  if (v) hashMix(((uint64_t)k << 56) ^ ((uint64_t)ord << 24) ^ v);
  return v;
}
uint32_t choose(Kind k, uint32_t n) {
  if (n <= 1) return 0;
  return decide(k, n, [&] { return rndN(n); });
}
bool chance(Kind k, uint32_t num, uint32_t den) {
  return decide(k, 2, [&] { return rndP(num, den) ? 1u : 0u; }) != 0;
}
// Small batches split the work of the IO core which never happens to the default ones.
uint32_t ioBatch(int kind) {
  static const uint32_t defs[3] = {1024, 1024, 4096}, small[8] = {0, 2, 3, 4, 8, 0, 2, 5}, ring[8] = {0, 2, 4, 8, 16, 0, 2, 4};
  static uint32_t batch[3];
  if (!g_inRun) return defs[kind];
  if (!batch[kind]) {
    uint32_t k = choose(K_CFG, 8);
    batch[kind] = kind == 1 ? ring[k] : small[k];
    if (!batch[kind]) batch[kind] = defs[kind];
  }
  return batch[kind];
}
uint32_t inSize(uint32_t n) {
  if (n <= 1) return 0;
  return decide(K_INPUT, n, [&]() -> uint32_t {
    switch (rndN(4)) {
    case 0: return rndN(n < 4 ? n : 4);
    case 1: { uint32_t b = 1; while (b < n && rndN(4)) b <<= 1; b += rndN(3); b = b ? b - 1 : 0; return b < n ? b : n - 1; }
    case 2: return rndN(n < 64 ? n : 64);
    default: return rndN(n);
    }
  });
}

// ------------------------------------------------------------------ faults ----
void allowFaults(std::initializer_list<Fault> fs) {
  // Swarm: every fault kind is on in about half of the runs at its own rate.
  for (Fault f : fs) {
    if (g_faultAllowed[f]) continue;
    g_faultAllowed[f] = true;
    static const uint16_t rates[] = {0, 0, 8, 30, 100, 300};
    g_faultRate[f] = rates[choose(K_CFG, 6)];
  }
}
bool faultEnabled(Fault f) { return !g_faultsOff && g_faultAllowed[f] && g_faultRate[f]; }
void countFault(Fault f) { ++g_res->faults[f]; }
bool fault(Fault f) {
  if (!faultEnabled(f)) return false;
  bool r = decide(K_FAULT, 2, [&] { return rndN(1024) < g_faultRate[f] ? 1u : 0u; }) != 0;
  if (r) { countFault(f); traceOp("fault %s", faultName(f)); }
  return r;
}
void faultsOff() { g_faultsOff = true; traceOp("faults off"); }

// ---------------------------------------------------------------- failures ----
static void finishRun(int status) __attribute__((noreturn));
static void finishRun(int status) {
  g_inRun = false;
  g_res->hash = g_hash; g_res->steps = g_steps; g_res->switches = g_switches; g_res->simtime = g_clock - 1000 * SEC;
  g_res->allocs = totalAllocs();
  for (int i = 0; i < K_COUNT; ++i) g_res->kindCount[i] = g_ord[i];
  memcpy(g_res->stage, g_stage, sizeof(g_stage));
  g_res->status = status;
  fflush(stdout);
  if (g_cfg.trace) fflush(stderr);
  _exit(0);
}
static bool propMatches(const char* props) {
  if (strcmp(props, "*") == 0 || strcmp(g_cfg.prop, "*") == 0) return true;
  size_t n = strlen(g_cfg.prop);
  for (const char* s = props; (s = strstr(s, g_cfg.prop)); s += n)
    if ((s == props || s[-1] == ' ' || s[-1] == ',') && (s[n] == 0 || s[n] == ' ' || s[n] == ',')) return true;
  return false;
}
static void dumpFibers(char* buf, size_t n) {
  size_t o = strlen(buf);
  for (int i = 0; i < g_nf && o < n - 1; ++i) {
    Fiber& f = g_f[i];
    if (f.st == FS_DONE) continue;
    static const char* const kinds[] = {"-", "mutex", "cond", "join", "sleep", "fd", "harness", "guard", "uring", "dns"};
    int w = snprintf(buf + o, n - o, "\n  fiber %d '%s' %s%s%s pc=%p", f.id, f.name,
      f.st == FS_RUNNABLE ? "runnable" : "blocked on ", f.st == FS_BLOCKED ? kinds[f.waitKind] : "",
      f.stallUntil > g_clock ? " stalled" : "", f.lastPc);
    if (w < 0) break;
    o += (size_t)w;
  }
}
void violation(const char* props, const char* cls, const char* fmt, ...) {
  g_inRun = false;
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof(g_res->msg), fmt, ap);
  va_end(ap);
  snprintf(g_res->props, sizeof(g_res->props), "%s", props);
  snprintf(g_res->cls, sizeof(g_res->cls), "%s", cls);
  dumpFibers(g_res->msg, sizeof(g_res->msg));
  traceOp("VIOLATION [%s] %s: %s", props, cls, g_res->msg);
  finishRun(propMatches(props) ? RS_VIOLATION : RS_FOREIGN);
}
void harnessError(const char* fmt, ...) {
  g_inRun = false;
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof(g_res->msg), fmt, ap);
  va_end(ap);
  dumpFibers(g_res->msg, sizeof(g_res->msg));
  snprintf(g_res->cls, sizeof(g_res->cls), "harness-error");
  traceOp("HARNESS ERROR %s", g_res->msg);
  finishRun(RS_ERROR);
}
static char g_traceBuf[1024];
void traceOp(const char* fmt, ...) {
  if (!g_cfg.trace) return;
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_traceBuf, sizeof(g_traceBuf), fmt, ap);
  va_end(ap);
  fprintf(stdout, "%10.6f #%llu f%d(%s) %s\n", (double)(g_clock - 1000 * SEC) / 1e9, (unsigned long long)g_steps, self(), cur ? cur->name : "", g_traceBuf);
}
void note(const char* fmt, ...) {
  if (!g_cfg.trace) return;
  va_list ap; va_start(ap, fmt);
  vsnprintf(g_traceBuf, sizeof(g_traceBuf), fmt, ap);
  va_end(ap);
  fprintf(stdout, "%10.6f #%llu f%d(%s)   * %s\n", (double)(g_clock - 1000 * SEC) / 1e9, (unsigned long long)g_steps, self(), cur ? cur->name : "", g_traceBuf);
}
void probe(const char* name) {
  for (uint32_t i = 0; i < g_res->probes; ++i)
    if (strcmp(g_res->probeName[i], name) == 0) { ++g_res->probeCount[i]; return; }
  if (g_res->probes >= MAXPROBES) return;
  uint32_t i = g_res->probes++;
  snprintf(g_res->probeName[i], sizeof(g_res->probeName[i]), "%s", name);
  g_res->probeCount[i] = 1;
}

// ------------------------------------------------------------------ timers ----
struct Timer { uint64_t at, seq; void (*fn)(void*, uint64_t); void* a; uint64_t b; };
static Vec<Timer> g_timers;  // Binary min-heap.
static uint64_t g_timerSeq;
static bool timerLess(const Timer& x, const Timer& y) { return x.at != y.at ? x.at < y.at : x.seq < y.seq; }
void addTimer(uint64_t at, void (*fn)(void*, uint64_t), void* a, uint64_t b) {
  g_timers.push_back(Timer{at, ++g_timerSeq, fn, a, b});
  size_t i = g_timers.size() - 1;
  while (i > 0) {
    size_t p = (i - 1) / 2;
    if (!timerLess(g_timers[i], g_timers[p])) break;
    std::swap(g_timers[i], g_timers[p]); i = p;
  }
}
static Timer popTimer() {
  Timer t = g_timers[0];
  g_timers[0] = g_timers.back(); g_timers.pop_back();
  size_t n = g_timers.size(), i = 0;
  for (;;) {
    size_t l = 2 * i + 1, r = l + 1, m = i;
    if (l < n && timerLess(g_timers[l], g_timers[m])) m = l;
    if (r < n && timerLess(g_timers[r], g_timers[m])) m = r;
    if (m == i) break;
    std::swap(g_timers[i], g_timers[m]); i = m;
  }
  return t;
}
static void runTimers() {
  while (!g_timers.empty() && g_timers[0].at <= g_clock) {
    Timer t = popTimer();
    t.fn(t.a, t.b);
  }
}

// --------------------------------------------------------------- scheduler ----
enum Strategy { ST_RANDOM, ST_PCT, ST_SLICE, ST_NONE };
static int g_strategy;
static uint32_t g_switchDen;             // ST_RANDOM: 1/den.
static uint32_t g_pctNext, g_pctLen; static int g_pctLow;

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

// Shared libraries are at random addresses.
static uint64_t stablePc(void* pc) { return (uintptr_t)pc < 0x10000000 ? (uint64_t)(uintptr_t)pc : 1; }
static void switchTo(Fiber* f, void* pc) {
  if (f == cur) return;
  ++g_switches;
  uint32_t e = (uint32_t)mix64(stablePc(pc) * 31 + stablePc(f->lastPc)) % EDGE_BITS;
  g_res->edges[e / 8] |= (uint8_t)(1 << (e % 8));
  Fiber* old = cur;
  old->err = errno;
  g_consec = 0;
  cur = f;
  if (g_cfg.trace && getenv("SIM_TRACE_SWITCH")) traceOp("-> runs");
  sim_switch(&old->sp, f->sp);
  errno = cur->err;
}

static inline bool schedulable(const Fiber& f) { return f.st == FS_RUNNABLE && f.stallUntil <= g_clock; }

// The list of schedulable fibers in the cyclic order after the current one; the current
// one first, if it is allowed.
static int collect(Fiber** out, bool allowCur) {
  int n = 0;
  (void)allowCur;
  if (schedulable(*cur)) out[n++] = cur;
  for (int i = 1; i < g_nf; ++i) {
    Fiber* f = &g_f[(cur->id + i) % g_nf];
    if (schedulable(*f)) out[n++] = f;
  }
  return n;
}

static bool g_forceSwitch;
static uint32_t genPick(Fiber** v, int n) {
  if (g_forceSwitch && v[0] == cur) return 1 + rndN((uint32_t)n - 1);
  if (g_faultsOff && g_strategy == ST_PCT) return rndN((uint32_t)n);
  switch (g_strategy) {
  case ST_RANDOM:
    if (v[0] == cur) return rndN(g_switchDen) ? 0 : rndN((uint32_t)n);
    return rndN((uint32_t)n);
  case ST_PCT: {
    if (--g_pctNext == 0) { g_pctNext = 1 + rndN(g_pctLen); cur->prio = --g_pctLow; }
    if (g_consec > 300 && v[0] == cur) { cur->prio = --g_pctLow; }
    int b = 0;
    for (int i = 1; i < n; ++i) if (v[i]->prio > v[b]->prio) b = i;
    return (uint32_t)b;
  }
  case ST_SLICE: {
    if (v[0] == cur && cur->slice > 0) { --cur->slice; return 0; }
    int b = (int)rndN((uint32_t)n);
    v[b]->slice = rndGeom(v[b]->sliceMean);
    return (uint32_t)b;
  }
  default: return 0;
  }
}

static void deadlock() {
  char what[512] = "";
  violation("*", "deadlock", "nothing can run any more: no runnable thread, no timer, no network event%s", what);
}

// Some fiber must be chosen. Advances the time while nothing is schedulable.
static void reschedule(bool allowCur, void* pc) {
  Fiber* v[MAXF];
  int n;
  for (;;) {
    n = collect(v, allowCur);
    if (n > 0) break;
    uint64_t t = NEVER;
    if (!g_timers.empty()) t = g_timers[0].at;
    for (int i = 0; i < g_nf; ++i)
      if (g_f[i].st == FS_RUNNABLE && g_f[i].stallUntil > g_clock && g_f[i].stallUntil < t) t = g_f[i].stallUntil;
    if (t == NEVER) {
      if (allowCur && cur->st == FS_RUNNABLE) { v[0] = cur; n = 1; break; }
      deadlock();
    }
    if (t > g_clock) g_clock = t;
    runTimers();
  }
  uint32_t r = 0;
  if (n > 1) {
    // Anti-starvation, regardless of the strategy.
    if (v[0] == cur && g_consec > 3000) r = 1;
    else r = decide(K_SCHED, (uint32_t)n, [&] { return genPick(v, n); });
  }
  g_forceSwitch = false;
  switchTo(v[r], pc);
}

static uint64_t g_timeCap = 2000000ull * SEC;
void timeCap(uint64_t sec) { g_timeCap = sec * SEC; }
static void stepCheck() {
  if (g_steps > g_stepCap)
    violation("*", "no-progress", "the run does not end: %llu scheduling points", (unsigned long long)g_steps);
  if (g_clock > g_timeCap)
    violation("*", "no-progress", "the run does not end: %llu virtual seconds", (unsigned long long)(g_clock / SEC));
  // A stalled thread can make the others spin, like on a half-done lock-free operation, which
  // costs many steps and almost no time. The stalls are limited in both.
  for (int i = 0; i < g_nf; ++i)
    if (g_f[i].stallUntil > g_clock && g_steps - g_f[i].stallStep > 50000) g_f[i].stallUntil = g_clock;
}

void schedPoint(int op, const void* addr, void* pc) {
  if (!g_inRun) return;
  g_plainSince = 0;
  if (g_noPreempt) return;
  int e = errno;
  ++g_steps; ++g_consec;
  g_clock += g_stepCost;
  cur->lastPc = pc;
  hashMix(((uint64_t)cur->id << 48) ^ ((uint64_t)op << 40) ^ stablePc(pc));
  if (g_cfg.trace && getenv("SIM_TRACE_POINTS")) traceOp("op %d pc %p addr %p", op, pc, addr);
  if ((g_steps & 255) == 0) stepCheck();
  if (!g_timers.empty() && g_timers[0].at <= g_clock) runTimers();
  if (g_stallRate && !g_faultsOff) {
    uint32_t v = decide(K_STALL, 64, [&] { return rndN(65536) < g_stallRate ? 1 + rndN(24) : 0u; });
    if (v) {
      cur->stallStep = g_steps;
      cur->stallUntil = g_clock + (10 * US << (v > 24 ? 24 : v - 1)) / 1;
      if (v > 19) cur->stallUntil = g_clock + (1 * SEC) * (v - 19);
      g_delays += cur->stallUntil - g_clock;
      countFault(F_stall_thread);
      traceOp("fault stall_thread for %.3f ms", (double)(cur->stallUntil - g_clock) / 1e6);
    }
  }
  reschedule(true, pc);
  errno = e;
}

static void fiberTimeout(void* a, uint64_t seq) {
  Fiber* f = (Fiber*)a;
  if (f->st != FS_BLOCKED || f->waitSeq != seq) return;
  f->timedOut = true;
  f->st = FS_RUNNABLE;
}

bool block(const void* obj, int kind, uint64_t deadline) {
  Fiber* f = cur;
  if (g_noPreempt) harnessError("blocking in an atomic section, kind %d", kind);
  if (!g_inRun) harnessError("blocking outside of a run");
  f->waitObj = obj; f->waitKind = kind; f->timedOut = false; ++f->waitSeq;
  f->st = FS_BLOCKED;
  f->lastPc = __builtin_return_address(0);
  ++g_steps;
  if ((g_steps & 255) == 0) stepCheck();
  if (deadline != NEVER) {
    uint64_t late = 0;
    if (deadline <= g_clock) deadline = g_clock;
    if (fault(F_late_timer)) { uint32_t k = 1 + choose(K_FAULTARG, 12); late = 100 * US << k; g_delays += late; }
    addTimer(deadline + late, fiberTimeout, f, f->waitSeq);
  }
  hashMix(((uint64_t)f->id << 48) ^ ((uint64_t)kind << 40) ^ 0xb10c);
  int e = errno;
  reschedule(false, f->lastPc);
  errno = e;
  f->waitObj = nullptr;
  return !f->timedOut;
}
int wakeAll(const void* obj, int kind) {
  int n = 0;
  for (int i = 0; i < g_nf; ++i) {
    Fiber& f = g_f[i];
    if (f.st == FS_BLOCKED && f.waitKind == kind && f.waitObj == obj) { f.st = FS_RUNNABLE; ++n; }
  }
  return n;
}
bool hasWaiters(const void* obj, int kind) {
  for (int i = 0; i < g_nf; ++i)
    if (g_f[i].st == FS_BLOCKED && g_f[i].waitKind == kind && g_f[i].waitObj == obj) return true;
  return false;
}
int wakeOne(const void* obj, int kind) {
  Fiber* v[MAXF]; int n = 0;
  for (int i = 0; i < g_nf; ++i) {
    Fiber& f = g_f[i];
    if (f.st == FS_BLOCKED && f.waitKind == kind && f.waitObj == obj) v[n++] = &f;
  }
  if (!n) return 0;
  // The longest waiting is the default. waitSeq isn't global, use ids.
  uint32_t k = n > 1 ? choose(K_PICK, (uint32_t)n) : 0;
  v[k]->st = FS_RUNNABLE;
  return 1;
}



// ------------------------------------------------------------ vector clocks ----
static inline void vjoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXF; ++i) a[i] = b[i] > a[i] ? b[i] : a[i]; }
static inline void vcJoin(VC* a, const VC* b) { vjoin(a->c, b->c); vjoin(a->x, b->x); }
static inline void vcTick() { ++cur->vc.c[cur->id]; ++cur->vc.x[cur->id]; }
// When set, something happens in the context of the kernel instead of the current fiber.
VC* g_hbProxy;
void hbRelease(VC* v) { if (g_hbProxy) { vcJoin(v, g_hbProxy); return; } if (!cur) return; vcJoin(v, &cur->vc); vcTick(); }
void hbAcquire(const VC* v) { if (g_hbProxy) { vcJoin(g_hbProxy, v); return; } if (!cur) return; vcJoin(&cur->vc, v); }
Atomic::Atomic() { ++g_noPreempt; }
// What a callback of the harness did is visible to those who wait for it via waitUntil(), as
// with a real flag and a mutex. Not in the core workloads: there waitUntil() is used to observe
// the library from outside, and should not hide its own missing synchronisation.
bool g_waitSync;
static VC g_waitVc;
Atomic::~Atomic() { if (!--g_noPreempt && g_waitSync && cur && !g_hbProxy) hbRelease(&g_waitVc); }

// ------------------------------------------------------------------- heap ----
struct Hdr { uint64_t size; uint32_t magic; uint32_t id; void* pc; uint64_t pad; };
static_assert(sizeof(Hdr) == 32);
static uintptr_t g_arenaPos;
static uint64_t g_liveAllocs, g_liveBytes, g_totalAllocs;
constexpr uint32_t MAGIC_LIVE = 0xA110CA7E, MAGIC_FREED = 0xDEADF4EE;
constexpr size_t REDZONE = 32;
static inline uint8_t* shadow(uintptr_t p) { return (uint8_t*)SHADOW_AT + ((p - ARENA_AT) >> 3); }
static inline uint8_t* ownerOf(uintptr_t p) { return (uint8_t*)OWNER_AT + ((p - ARENA_AT) >> 3); }
static inline bool inArena(uintptr_t p) { return p - ARENA_AT < ARENA_SIZE; }
// Shadow values: 0 never allocated or red zone; 1..8 that many bytes usable; 0xFD freed.
constexpr uint8_t SH_FREED = 0xFD;

uint64_t liveAllocs() { return g_liveAllocs; }
uint64_t liveBytes() { return g_liveBytes; }
uint64_t totalAllocs() { return g_totalAllocs; }
uint64_t allocMark() { return g_arenaPos; }
bool isFreed(const void* p) { return inArena((uintptr_t)p) && *shadow((uintptr_t)p) == SH_FREED; }
uint64_t liveSince(uint64_t mark, size_t* firstSize, void** firstPc) {
  uint64_t n = 0;
  uintptr_t p = mark;
  while (p < g_arenaPos) {
    Hdr* h = (Hdr*)p;
    if (h->magic == MAGIC_LIVE) { if (n == 0) { *firstSize = h->size; *firstPc = h->pc; } ++n; }
    p += sizeof(Hdr) + ((h->size + 15) & ~15ull) + REDZONE;
  }
  return n;
}
uint64_t liveSmall(uint64_t mark, size_t below, size_t* firstSize, void** firstPc, uint64_t* bigUnits, size_t unit) {
  uint64_t n = 0;
  uintptr_t p = mark;
  *bigUnits = 0;
  while (p < g_arenaPos) {
    Hdr* h = (Hdr*)p;
    if (h->magic == MAGIC_LIVE) {
      if (h->size >= below) *bigUnits += h->size / unit;
      else { if (n == 0) { *firstSize = h->size; *firstPc = h->pc; } ++n; }
    }
    p += sizeof(Hdr) + ((h->size + 15) & ~15ull) + REDZONE;
  }
  return n;
}
static void* heapAlloc(size_t n, void* pc) {
  if (!g_inRun) {
    // Before the run (static initialization): plain malloc memory, never checked.
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  size_t body = (n + 15) & ~15ull;
  if (g_arenaPos + sizeof(Hdr) + body + REDZONE + 64 > ARENA_AT + ARENA_SIZE) violation("*", "out-of-memory", "%llu bytes are allocated in one run", (unsigned long long)(g_arenaPos - ARENA_AT));
  Hdr* h = (Hdr*)g_arenaPos;
  h->size = n; h->magic = MAGIC_LIVE; h->id = (uint32_t)++g_totalAllocs; h->pc = pc;
  uintptr_t p = g_arenaPos + sizeof(Hdr);
  g_arenaPos = p + body + REDZONE;
  memset(shadow(p), 8, n / 8);
  if (n % 8) *shadow(p + (n & ~7ull)) = (uint8_t)(n % 8);
  memset((void*)p, 0xCD, n);
  ++g_liveAllocs; g_liveBytes += n;
  return (void*)p;
}
static void raceFree(uintptr_t p, size_t n, void* pc);
static void heapFree(void* q, void* pc) {
  uintptr_t p = (uintptr_t)q;
  if (!q) return;
  if (!inArena(p)) { if (g_inRun && cur && (uintptr_t)q - STACKS_AT < MAXF * STACK * 2) violation("*", "bad-free", "delete of a stack pointer %p at pc %p", q, pc); free(q); return; }
  if (!g_inRun) return;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if ((p & 15) || p < ARENA_AT + sizeof(Hdr) || (h->magic != MAGIC_LIVE && h->magic != MAGIC_FREED))
    violation("*", "bad-free", "delete of a wrong pointer at pc %p", pc);
  if (h->magic == MAGIC_FREED) violation("*", "double-free", "memory of %llu bytes freed twice, at pc %p, allocated at %p", (unsigned long long)h->size, pc, h->pc);
  h->magic = MAGIC_FREED;
  size_t n = h->size;
  if (isRepoPc(pc)) raceFree(p, n, pc);
  memset(shadow(p), SH_FREED, (n + 7) / 8);
  memset(q, 0xDD, n);
  --g_liveAllocs; g_liveBytes -= n;
}
bool heapFind(const void* p) { return inArena((uintptr_t)p); }

// Stack of another fiber below its top, or of a finished fiber?
static void checkStack(uintptr_t p, bool isWrite, void* pc) {
  size_t k = (p - STACKS_AT) / (STACK * 2);
  if (k >= (size_t)g_nf) return;
  Fiber& f = g_f[k];
  if (&f == cur) return;
  if (f.st == FS_DONE || (p < (uintptr_t)f.sp && p >= (uintptr_t)f.lo))
    violation("*", "use-after-scope", "%s of a dead stack frame of thread %d '%s' at pc %p", isWrite ? "write" : "read", f.id, f.name, pc);
}
[[gnu::noinline]] static void badAccess(uintptr_t p, size_t n, bool isWrite, void* pc) {
  uint8_t s = *shadow(p);
  // Find the owner block.
  uintptr_t q = p & ~15ull;
  const Hdr* h = nullptr;
  for (int i = 0; i < 1 << 16 && q >= ARENA_AT; ++i, q -= 16) {
    const Hdr* x = (const Hdr*)q;
    if ((x->magic == MAGIC_LIVE || x->magic == MAGIC_FREED) && x->size < (1 << 28)) { h = x; break; }
  }
  violation("*", s == SH_FREED ? "use-after-free" : "out-of-bounds",
    "%s of %zu bytes at %s memory, pc %p (block of %llu bytes allocated at %p, offset %lld)", isWrite ? "write" : "read", n,
    s == SH_FREED ? "freed" : "unowned", pc, h ? (unsigned long long)h->size : 0, h ? h->pc : nullptr,
    h ? (long long)(p - (uintptr_t)h - sizeof(Hdr)) : 0);
}
static inline bool memOk(uintptr_t p, size_t n) {
  uint8_t s = *shadow(p);
  size_t off = p & 7;
  if (n <= 8 && off + n <= 8) return s <= 8 && off + n <= s;
  for (size_t i = 0; i < n;) {
    uintptr_t q = p + i;
    size_t o = q & 7, m = 8 - o;
    if (m > n - i) m = n - i;
    uint8_t t = *shadow(q);
    if (t > 8 || o + m > t) return false;
    i += m;
  }
  return true;
}
void checkMem(const void* ptr, size_t n, bool isWrite, void* pc) {
  if (!g_inRun || n == 0) return;
  uintptr_t p = (uintptr_t)ptr;
  if (inArena(p)) { if (!memOk(p, n)) badAccess(p, n, isWrite, pc); }
  else if (p - STACKS_AT < MAXF * STACK * 2) checkStack(p, isWrite, pc);
  else if (p < 4096) violation("*", "null-access", "%s at address %p, pc %p", isWrite ? "write" : "read", ptr, pc);
}
// --------------------------------------------------------------- data races ----
// The last plain write and the last plain read of each 8 bytes of the heap by the code under
// test. Two accesses of the same bytes, not ordered by the synchronisation in the source,
// are a race whatever the actual order was.
struct RaceAcc { uint32_t clock; uint32_t pc; };
struct RaceCell { RaceAcc w, r; uint8_t wf, rf, wm, rm; uint32_t pad; };
static_assert(sizeof(RaceCell) == 24);
static const char* const g_pcBase = sim_text_repo_begin;
[[noreturn]] [[gnu::noinline]] static void raceFound(uintptr_t p, bool isWrite, void* pc, bool wasWrite, int fiber, uint32_t opc) {
  violation("*", "data-race", "%s by thread %d '%s' at pc %p is not ordered with the %s by thread %d '%s' at pc %p, address %p",
    isWrite ? "a write" : "a read", cur->id, cur->name, pc, wasWrite ? "write" : "read", fiber, g_f[fiber].name, (const void*)(g_pcBase + opc), (void*)p);
}
static inline void raceCell(uintptr_t p, uint8_t m, bool isWrite, void* pc) {
  RaceCell* c = (RaceCell*)RACE_AT + ((p - ARENA_AT) >> 3);
  uint32_t me = (uint32_t)cur->id;
  uint32_t now = cur->vc.c[me];
  const uint32_t* vc = (const char*)pc >= sim_text_race_strict ? cur->vc.c : cur->vc.x;
  if (c->wm & m && c->wf != me && vc[c->wf] < c->w.clock) raceFound(p, isWrite, pc, true, c->wf, c->w.pc);
  uint32_t o = (uint32_t)((const char*)pc - g_pcBase);
  if (isWrite) {
    if (c->rm & m && c->rf != me && vc[c->rf] < c->r.clock) raceFound(p, true, pc, false, c->rf, c->r.pc);
    c->w.clock = now; c->w.pc = o; c->wf = (uint8_t)me; c->wm = m;
  } else {
    c->r.clock = now; c->r.pc = o; c->rf = (uint8_t)me; c->rm = m;
  }
}
// A free is a write of everything.
static void raceFree(uintptr_t p, size_t n, void* pc) {
  if (n > 1 << 14) n = 1 << 14;
  const RaceCell* c = (const RaceCell*)RACE_AT + ((p - ARENA_AT) >> 3);
  uint32_t me = (uint32_t)cur->id;
  for (size_t i = 0; i < n; i += 8, ++c) {
    if (c->wm && c->wf != me && cur->vc.x[c->wf] < c->w.clock) raceFound(p + i, true, pc, true, c->wf, c->w.pc);
    if (c->rm && c->rf != me && cur->vc.x[c->rf] < c->r.clock) raceFound(p + i, true, pc, false, c->rf, c->r.pc);
  }
}
static inline void raceCheck(uintptr_t p, size_t n, bool isWrite, void* pc) {
  if ((const char*)pc < sim_text_race_begin || (const char*)pc >= sim_text_repo_end) return;
  while (n) {
    size_t o = p & 7, k = 8 - o;
    if (k > n) k = n;
    raceCell(p, (uint8_t)(((1u << k) - 1) << o), isWrite, pc);
    p += k; n -= k;
  }
}
static inline void plainAccess(const void* ptr, size_t n, bool isWrite, void* pc) {
  if (!g_inRun) return;
  uintptr_t p = (uintptr_t)ptr;
  if (inArena(p)) { if (__builtin_expect(!memOk(p, n), 0)) badAccess(p, n, isWrite, pc); raceCheck(p, n, isWrite, pc); }
  else if (p - STACKS_AT < MAXF * STACK * 2) {
    if (!(p >= (uintptr_t)cur->lo && p < (uintptr_t)cur->hi)) checkStack(p, isWrite, pc);
    else { if (++g_plainSince > 200000000ull) violation("*", "stuck", "an endless loop without any synchronisation, pc %p", pc); return; }
  }
  if (++g_plainSince > 200000000ull) violation("*", "stuck", "an endless loop without any synchronisation, pc %p", pc);
  if (g_plainGap >= 0 && g_plainGap-- == 0 && !g_noPreempt) {
    if (isRepoPc(pc) && !g_faultsOff) {
      countFault(F_preempt_plain);
      // The next gap first: the point below may not return soon.
      uint32_t gap = decide(K_PLAINGAP, UINT32_MAX, [&] { return rndGeom(g_plainMean); });
      g_plainGap = gap ? (int64_t)gap : -1;
      g_forceSwitch = true;   // A preemption is meant to switch.
      schedPoint(OP_PLAIN, ptr, pc);
    } else if (!g_faultsOff) g_plainGap = 0;
    else g_plainGap = -1;
  }
}

// ---------------------------------------------------------- payload tracking ----
struct PCell { int w; uint32_t wc; uint32_t r[MAXF]; };
static Map<uintptr_t, PCell>* g_payload;
void payloadWrite(const void* p, size_t n, const char* what) {
  checkMem(p, n, true, __builtin_return_address(0));
  if (!g_inRun) return;
  for (uintptr_t q = (uintptr_t)p & ~7ull; q < (uintptr_t)p + n; q += 8) {
    auto it = g_payload->find(q);
    if (it == g_payload->end()) {
      PCell c; memset(&c, 0, sizeof(c)); c.w = cur->id; c.wc = cur->vc.c[cur->id];
      g_payload->insert({q, c});
      continue;
    }
    PCell& c = it->second;
    if (c.w >= 0 && c.w != cur->id && cur->vc.c[c.w] < c.wc)
      violation("*", "visibility", "%s: a write by thread %d '%s' is not ordered after the write by thread %d '%s'", what, cur->id, cur->name, c.w, g_f[c.w].name);
    for (int i = 0; i < g_nf; ++i)
      if (i != cur->id && c.r[i] && cur->vc.c[i] < c.r[i])
        violation("*", "visibility", "%s: a write by thread %d '%s' is not ordered after the read by thread %d '%s'", what, cur->id, cur->name, i, g_f[i].name);
    memset(c.r, 0, sizeof(c.r));
    c.w = cur->id; c.wc = cur->vc.c[cur->id];
  }
}
void payloadRead(const void* p, size_t n, const char* what) {
  checkMem(p, n, false, __builtin_return_address(0));
  if (!g_inRun) return;
  for (uintptr_t q = (uintptr_t)p & ~7ull; q < (uintptr_t)p + n; q += 8) {
    auto it = g_payload->find(q);
    if (it == g_payload->end()) {
      PCell c; memset(&c, 0, sizeof(c)); c.w = -1; c.r[cur->id] = cur->vc.c[cur->id];
      g_payload->insert({q, c});
      continue;
    }
    PCell& c = it->second;
    if (c.w >= 0 && c.w != cur->id && cur->vc.c[c.w] < c.wc)
      violation("*", "visibility", "%s: the write by thread %d '%s' is not visible to the reading thread %d '%s'", what, c.w, g_f[c.w].name, cur->id, cur->name);
    c.r[cur->id] = cur->vc.c[cur->id];
  }
}
void payloadForget(const void* p, size_t n) {
  for (uintptr_t q = (uintptr_t)p & ~7ull; q < (uintptr_t)p + n; q += 8) g_payload->erase(q);
}

// -------------------------------------------------------------- fibers (api) ----
static void (*g_keyDtors[64])(void*);
static void tlsDestroy(Fiber* f) {
  for (int round = 0; round < 4; ++round) for (int k = 1; k < 64; ++k) {
    void* v = f->keys[k];
    if (v && g_keyDtors[k]) { f->keys[k] = nullptr; g_keyDtors[k](v); }
  }
  while (f->ndtors > 0) {
    TlsDtor d = f->dtors[--f->ndtors];
    d.fn(d.obj);
  }
}
static void fiberMain() {
  Fiber* f = cur;
  errno = 0;
  if (f->fn) { (*f->fn)(); delete f->fn; f->fn = nullptr; }
  else f->pret = f->pfn(f->parg);
  tlsDestroy(f);
  schedPoint(OP_THREAD_EXIT, nullptr, (void*)fiberMain);
  f->st = FS_DONE;
  hbRelease(&f->relFence);  // Picked up by the joiner.
  traceOp("thread exits");
  wakeAll(f, W_JOIN);
  for (;;) { reschedule(false, (void*)fiberMain); harnessError("a finished fiber runs"); }
}
static Fiber* newFiber(const char* name) {
  if (g_nf >= MAXF) violation("*", "too-many-threads", "%d threads are started in one run", g_nf);
  Fiber* f = &g_f[g_nf];
  f->id = g_nf;
  f->st = FS_RUNNABLE;
  f->lo = (char*)STACKS_AT + (size_t)g_nf * STACK * 2 + STACK;
  f->hi = f->lo + STACK;
  f->tid = 1000 + (uint64_t)g_nf;
  snprintf(f->name, sizeof(f->name), "%s", name);
  ++g_nf;
  f->sliceMean = 1;
  if (!g_cfg.listMode) {
    f->prio = (int)rndN(1000000) + 1000;
    static const uint32_t means[] = {1, 3, 10, 30, 100, 400};
    f->sliceMean = means[rndN(6)];
  }
  if (cur) { f->vc = cur->vc; vcTick(); }
  f->vc.c[f->id] = f->vc.x[f->id] = 1;
  void** sp = (void**)(f->hi - 64);
  *--sp = nullptr;               // Alignment and a fake return address.
  *--sp = (void*)fiberMain;      // ret target
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f->sp = sp;
  return f;
}
int spawn(const char* name, std::function<void()> fn) {
  Fiber* f = newFiber(name);
  f->fn = new std::function<void()>(std::move(fn));
  traceOp("spawn %d '%s'", f->id, name);
  schedPoint(OP_THREAD_CREATE, f, __builtin_return_address(0));
  return f->id;
}
void join(int id) {
  Fiber* f = &g_f[id];
  schedPoint(OP_THREAD_JOIN, f, __builtin_return_address(0));
  while (f->st != FS_DONE) block(f, W_JOIN, NEVER);
  hbAcquire(&f->relFence);
}
void sleepNs(uint64_t ns) {
  schedPoint(OP_SLEEP, nullptr, __builtin_return_address(0));
  block(nullptr, W_SLEEP, g_clock + ns);
}
void yield() { schedPoint(OP_YIELD, nullptr, __builtin_return_address(0)); }
bool waitUntil(std::function<bool()> pred, uint64_t timeout) {
  // Clock jumps don't give the others any time.
  uint64_t end = timeout == NEVER ? NEVER : g_clock - g_jumps + timeout;
  uint64_t pause = 50 * US;
  for (;;) {
    bool ok;
    { Atomic a; ok = pred(); }
    if (ok) { if (g_waitSync) hbAcquire(&g_waitVc); return true; }
    if (g_clock - g_jumps >= end) return false;
    block(nullptr, W_SLEEP, g_clock + pause);
    if (pause < 20 * MS) pause = pause * 3 / 2;
  }
}
bool eventually(std::function<bool()> pred) {
  if (waitUntil(pred, 60 * SEC)) return true;
  faultsOff();
  return waitUntil(pred, PROGRESS);
}

// -------------------------------------------------------------------- init ----
static void onCrash(int sig, siginfo_t* si, void* uc) {
  void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  uintptr_t a = (uintptr_t)si->si_addr;
  if (sig == SIGALRM) {
    g_inRun = false;
    snprintf(g_res->msg, sizeof(g_res->msg), "real time limit of a run, pc %p", pc);
    snprintf(g_res->cls, sizeof(g_res->cls), "harness-timeout");
    finishRun(RS_ERROR);
  }
  bool wasIn = g_inRun;
  g_inRun = false;
  if (!wasIn) {
    snprintf(g_res->msg, sizeof(g_res->msg), "signal %d in the runtime, address %p, pc %p", sig, (void*)a, pc);
    snprintf(g_res->cls, sizeof(g_res->cls), "harness-crash");
    finishRun(RS_ERROR);
  }
  violation("*", "crash", "signal %d (%s), pc %p%s", sig, strsignal(sig), pc,
    a - STACKS_AT < MAXF * STACK * 2 ? " (stack overflow?)" : "");
}
void rtGlobalInit() {
  auto map = [](uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) { fprintf(stderr, "can not map %p\n", (void*)at); _exit(3); }
  };
  map(ARENA_AT, ARENA_SIZE);
  map(SHADOW_AT, ARENA_SIZE / 8);
  map(OWNER_AT, ARENA_SIZE / 8);
  map(RACE_AT, ARENA_SIZE / 8 * sizeof(RaceCell));
  for (int i = 0; i < MAXF; ++i) map(STACKS_AT + (size_t)i * STACK * 2 + STACK, STACK);
}
extern void stubsReset();
static void runMain(const Workload* w) {
  g_clock = 1000 * SEC;
  // The knobs of the run. Everything goes via choose(), but the strategy itself matters
  // only for the seed mode: in the list mode its decisions are listed.
  static const uint64_t costs[] = {100, 20, 1000, 10 * US, 100 * US};
  g_stepCost = costs[choose(K_CFG, 5)];
  g_strategy = ST_NONE;
  g_plainGap = -1;
  if (!g_cfg.listMode) {
    static const uint8_t strat[] = {ST_RANDOM, ST_RANDOM, ST_RANDOM, ST_PCT, ST_PCT, ST_SLICE, ST_SLICE, ST_SLICE};
    g_strategy = strat[rndN(8)];
    static const uint32_t dens[] = {2, 4, 8, 16, 64, 256};
    g_switchDen = dens[rndN(6)];
    g_pctLen = 10u << rndN(9);
    g_pctNext = 1 + rndN(g_pctLen);
    g_pctLow = 0;
    static const uint32_t stalls[] = {0, 0, 0, 20, 100, 400, 1500};
    g_stallRate = stalls[rndN(7)];
    static const uint32_t means[] = {0, 0, 5, 20, 100, 500, 2500};
    g_plainMean = means[rndN(7)];
  }
  // The stall decisions exist or not: part of the run's configuration.
  g_stallRate = decide(K_CFG, 65536, [&] { return g_stallRate; });
  g_plainMean = decide(K_CFG, 65536, [&] { return g_plainMean; });
  if (g_plainMean) {
    uint32_t gap = decide(K_PLAINGAP, UINT32_MAX, [&] { return rndGeom(g_plainMean); });
    g_plainGap = gap ? (int64_t)gap : -1;
  }
  allowFaults({F_spurious_wakeup, F_late_timer, F_clock_jump});
  cur = nullptr;
  Fiber* f = newFiber("main");
  cur = f;
  f->fn = nullptr;
  f->pfn = [](void* a) -> void* {
    ((const Workload*)a)->fn();
    // The run is over when its main fiber is.
    stage("done");
    finishRun(RS_OK);
  };
  f->parg = (void*)w;
  g_inRun = true;
  void* dummy;
  sim_switch(&dummy, f->sp);
}
void runChild(const Workload* w, const RunConfig& cfg, Result* res) {
  g_res = res; g_cfg = cfg;
  g_arenaPos = ARENA_AT + 4096;
  g_payload = (Map<uintptr_t, PCell>*)malloc(sizeof(Map<uintptr_t, PCell>));
  new (g_payload) Map<uintptr_t, PCell>();
  g_stepCap = 3000000;
  static char altstack[65536];
  stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = altstack; ss.ss_size = sizeof(altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = onCrash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM}) sigaction(s, &sa, nullptr);
  itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, nullptr);
  static char errbuf[1 << 16];
  setvbuf(stderr, errbuf, _IOFBF, sizeof(errbuf));
  rndSeed(cfg.seed);
  g_hash = 0x51;
  for (const char* s = w->name; *s; ++s) hashMix((uint64_t)*s);
  if (cfg.listMode) {
    uint32_t cnt[K_COUNT] = {};
    for (uint32_t i = 0; i < cfg.listCount; ++i) ++cnt[cfg.list[i].kind];
    for (int k = 0; k < K_COUNT; ++k) { g_list[k].v = (const Choice**)malloc(sizeof(Choice*) * (cnt[k] + 1)); g_list[k].n = 0; g_list[k].pos = 0; }
    for (uint32_t i = 0; i < cfg.listCount; ++i) { ListK& l = g_list[cfg.list[i].kind]; l.v[l.n++] = &cfg.list[i]; }
  }
  resetKernel();
  runMain(w);
  _exit(4);
}

Registrar::Registrar(const char* name, const char* props, int weight, void (*fn)()) {
  Workload* w = (Workload*)malloc(sizeof(Workload));
  w->name = name; w->props = props; w->weight = weight; w->fn = fn; w->next = g_workloads;
  g_workloads = w;
}

// -------------------------------------------------- threads, locks and clocks ----
// The states live in the objects themselves: they are relocated and re-created freely.
struct MutexRep { uint32_t owner1; uint32_t vcIdx; uint32_t rec; uint32_t pad; int kindCopy; };
static Vec<VC>* g_mvc;
static VC* mutexVc(MutexRep* m) {
  if (!g_mvc) { g_mvc = (Vec<VC>*)malloc(sizeof(Vec<VC>)); new (g_mvc) Vec<VC>(); g_mvc->reserve(1 << 14); }
  if (m->vcIdx == 0 || m->vcIdx > g_mvc->size()) { VC z; memset(&z, 0, sizeof(z)); g_mvc->push_back(z); m->vcIdx = (uint32_t)g_mvc->size(); }
  return &(*g_mvc)[m->vcIdx - 1];
}
static void mutexAcquire(MutexRep* m) { m->owner1 = (uint32_t)cur->id + 1; hbAcquire(mutexVc(m)); }
static int mutexLock(pthread_mutex_t* pm, void* pc) {
  MutexRep* m = (MutexRep*)pm;
  if (!g_inRun) { return 0; }
  checkMem(pm, sizeof(*pm), true, pc);
  schedPoint(OP_MUTEX_LOCK, pm, pc);
  checkMem(pm, sizeof(*pm), true, pc);
  if (m->owner1 == (uint32_t)cur->id + 1)
    violation("*", "self-deadlock", "a thread locks a native mutex which it already holds, pc %p", pc);
  while (m->owner1 != 0) {
    if (m->owner1 > (uint32_t)g_nf) violation("*", "bad-mutex", "a mutex is not valid, pc %p", pc);
    block(pm, W_MUTEX, NEVER);
    checkMem(pm, sizeof(*pm), true, pc);
  }
  mutexAcquire(m);
  return 0;
}
static int mutexTryLock(pthread_mutex_t* pm, void* pc) {
  MutexRep* m = (MutexRep*)pm;
  if (!g_inRun) return 0;
  checkMem(pm, sizeof(*pm), true, pc);
  schedPoint(OP_MUTEX_TRYLOCK, pm, pc);
  checkMem(pm, sizeof(*pm), true, pc);
  if (m->owner1 != 0) return EBUSY;
  mutexAcquire(m);
  return 0;
}
static void mutexRelease(MutexRep* m, void* pc) {
  if (m->owner1 != (uint32_t)cur->id + 1)
    violation("*", "bad-unlock", "a thread unlocks a native mutex which it does not hold, pc %p", pc);
  hbRelease(mutexVc(m));
  m->owner1 = 0;
  wakeAll(m, W_MUTEX);
}
static int mutexUnlock(pthread_mutex_t* pm, void* pc) {
  if (!g_inRun) return 0;
  checkMem(pm, sizeof(*pm), true, pc);
  schedPoint(OP_MUTEX_UNLOCK, pm, pc);
  checkMem(pm, sizeof(*pm), true, pc);
  mutexRelease((MutexRep*)pm, pc);
  return 0;
}
static void spuriousWake(void* a, uint64_t seq) {
  Fiber* f = (Fiber*)a;
  if (f->st == FS_BLOCKED && f->waitSeq == seq) f->st = FS_RUNNABLE;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* pm, uint64_t deadline, void* pc) {
  if (!g_inRun) return 0;
  checkMem(c, sizeof(*c), true, pc);
  schedPoint(OP_COND_WAIT, c, pc);
  mutexRelease((MutexRep*)pm, pc);
  if (fault(F_spurious_wakeup)) {
    uint32_t k = choose(K_FAULTARG, 16);
    addTimer(g_clock + (1 * US << k), spuriousWake, cur, cur->waitSeq + 1);
  }
  bool ok = block(c, W_COND, deadline);
  checkMem(pm, sizeof(*pm), true, pc);
  MutexRep* m = (MutexRep*)pm;
  while (m->owner1 != 0) { block(pm, W_MUTEX, NEVER); checkMem(pm, sizeof(*pm), true, pc); }
  mutexAcquire(m);
  return ok ? 0 : ETIMEDOUT;
}
static uint64_t clockRead() {
  if (fault(F_clock_jump)) {
    uint32_t k = choose(K_FAULTARG, 20);
    uint64_t leap = 1 * MS << (k > 18 ? 18 : k);
    g_clock += leap; g_jumps += leap; g_delays += leap;
    traceOp("clock jumps by %.3f s", (double)leap / 1e9);
    runTimers();
  }
  return g_clock;
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

extern "C" {

long syscall(long n, ...) noexcept {
  if (n == SYS_gettid) return cur ? (long)cur->tid : 999;
  va_list ap; va_start(ap, n);
  long v[6]; for (long& x : v) x = va_arg(ap, long);
  va_end(ap);
  if (inRun()) harnessError("unexpected syscall %ld, pc %p", n, PC);
  return rawSyscall(n, v[0], v[1], v[2], v[3], v[4], v[5]);
}
pid_t gettid(void) noexcept { return (pid_t)(cur ? cur->tid : 999); }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof(*m)); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (inRun()) { checkMem(m, sizeof(*m), true, PC); if (((MutexRep*)m)->owner1) violation("*", "mutex-destroy", "a locked native mutex is destroyed, pc %p", PC); }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mutexLock(m, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutexTryLock(m, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mutexUnlock(m, PC); }
// The locks of the libraries which are used as they are (OpenSSL). They are not
// scheduling points when they are free, to keep the runs short.
struct RwRep { uint32_t writer1; uint32_t readers; uint32_t vcIdx; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static VC* rwVc(RwRep* l) { MutexRep m; memset(&m, 0, sizeof(m)); m.vcIdx = l->vcIdx; VC* v = mutexVc(&m); l->vcIdx = m.vcIdx; return v; }
int pthread_rwlock_rdlock(pthread_rwlock_t* pl) {
  RwRep* l = (RwRep*)pl;
  if (!inRun()) return 0;
  while (l->writer1) { if (l->writer1 == (uint32_t)cur->id + 1) harnessError("a library lock is taken twice"); block(pl, W_MUTEX, NEVER); }
  ++l->readers;
  hbAcquire(rwVc(l));
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* pl) {
  RwRep* l = (RwRep*)pl;
  if (!inRun()) return 0;
  while (l->writer1 || l->readers) { if (l->writer1 == (uint32_t)cur->id + 1) harnessError("a library lock is taken twice"); block(pl, W_MUTEX, NEVER); }
  l->writer1 = (uint32_t)cur->id + 1;
  hbAcquire(rwVc(l));
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* pl) {
  RwRep* l = (RwRep*)pl;
  if (!inRun()) return 0;
  hbRelease(rwVc(l));
  if (l->writer1) l->writer1 = 0;
  else { if (!l->readers) harnessError("a free library lock is unlocked"); --l->readers; }
  wakeAll(pl, W_MUTEX);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  while (*o != 2) {
    if (*o == 0) { *o = 1; fn(); *o = 2; if (inRun()) wakeAll(o, W_GUARD); return 0; }
    if (!inRun()) return 0;
    block(o, W_GUARD, NEVER);
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (inRun()) { checkMem(c, sizeof(*c), true, PC); if (hasWaiters(c, W_COND)) violation("*", "cond-destroy", "a condition variable with waiters is destroyed, pc %p", PC); }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, NEVER, PC); }
static uint64_t tsToNs(const struct timespec* ts) {
  if (ts->tv_sec < 0) return 0;
  if ((uint64_t)ts->tv_sec > 4000000000ull) return NEVER;
  return (uint64_t)ts->tv_sec * SEC + (uint64_t)ts->tv_nsec;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return condWait(c, m, tsToNs(ts), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return condWait(c, m, tsToNs(ts), PC); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!inRun()) return 0;
  checkMem(c, sizeof(*c), true, PC);
  schedPoint(OP_COND_SIGNAL, c, PC);
  checkMem(c, sizeof(*c), true, PC);
  wakeOne(c, W_COND);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!inRun()) return 0;
  checkMem(c, sizeof(*c), true, PC);
  schedPoint(OP_COND_BCAST, c, PC);
  checkMem(c, sizeof(*c), true, PC);
  wakeAll(c, W_COND);
  return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!inRun()) harnessError("pthread_create outside of a run");
  Fiber* f = newFiber("thread");
  f->pfn = fn; f->parg = arg;
  *out = (pthread_t)(f->id + 1);
  traceOp("pthread_create %d", f->id);
  schedPoint(OP_THREAD_CREATE, f, PC);
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  int id = (int)t - 1;
  if (id < 0 || id >= g_nf) violation("*", "bad-join", "not a thread is joined");
  if (g_f[id].joined || g_f[id].detached) violation("*", "bad-join", "a thread is joined twice or after detach");
  if (&g_f[id] == cur) violation("*", "bad-join", "a thread joins itself");
  g_f[id].joined = true;
  join(id);
  if (ret) *ret = g_f[id].pret;
  return 0;
}
int pthread_detach(pthread_t t) { g_f[(int)t - 1].detached = true; return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_setname_np(pthread_t t, const char* name) {
  if (strlen(name) > 15) return ERANGE;
  snprintf(g_f[(int)t - 1].name, sizeof(g_f[0].name), "%s", name);
  return 0;
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!inRun()) { return (int)rawSyscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0); }
  schedPoint(OP_CLOCK, nullptr, PC);
  uint64_t t = clockRead();
  ts->tv_sec = (time_t)(t / SEC); ts->tv_nsec = (long)(t % SEC);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) { uint64_t t = inRun() ? now() : 0; t += 1700000000ull * SEC; tv->tv_sec = (time_t)(t / SEC); tv->tv_usec = (long)(t % SEC / 1000); return 0; }
time_t time(time_t* out) { time_t t = (time_t)(1700000000ull + (inRun() ? now() / SEC : 0)); if (out) *out = t; return t; }
unsigned sleep(unsigned s) { sleepNs((uint64_t)s * SEC); return 0; }
int usleep(useconds_t us) { sleepNs((uint64_t)us * US); return 0; }
int nanosleep(const struct timespec* ts, struct timespec*) { sleepNs(tsToNs(ts)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
  uint64_t t = tsToNs(ts);
  if (flags & TIMER_ABSTIME) sleepNs(t > now() ? t - now() : 0); else sleepNs(t);
  return 0;
}
static uint32_t g_keys;
static void* g_mainKeys[64];
int pthread_key_create(pthread_key_t* k, void (*fn)(void*)) { if (g_keys >= 63) harnessError("too many pthread keys"); *k = ++g_keys; g_keyDtors[*k] = fn; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return cur ? cur->keys[k] : g_mainKeys[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { (cur ? cur->keys[k] : g_mainKeys[k]) = (void*)v; return 0; }
int sched_yield(void) { schedPoint(OP_YIELD, nullptr, PC); return 0; }

void* __emutls_get_address(void* ctl) {
  struct Ctl { size_t size, align; uintptr_t index; void* value; };
  Ctl* c = (Ctl*)ctl;
  static uintptr_t next;
  if (c->index == 0) c->index = ++next;
  if (c->index >= 256) harnessError("too many thread locals");
  static void* mainTls[256];
  void** slots = cur ? cur->tls : mainTls;
  void*& p = slots[c->index];
  if (!p) {
    size_t n = (c->size + 63) & ~63ull;
    p = aligned_alloc(64, n ? n : 64);
    if (c->value) memcpy(p, c->value, c->size); else memset(p, 0, c->size);
  }
  return p;
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
  if (!cur) return 0;
  if (cur->ndtors >= 64) harnessError("too many thread local destructors");
  cur->dtors[cur->ndtors++] = TlsDtor{fn, obj};
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  if (b[0]) return 0;
  if (!inRun()) return 1;
  schedPoint(OP_MUTEX_LOCK, g, PC);
  while (b[1]) block(g, W_GUARD, NEVER);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
static VC g_guardVc;
void __cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0; if (inRun()) { hbRelease(&g_guardVc); wakeAll(g, W_GUARD); } }
void __cxa_guard_abort(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; if (inRun()) wakeAll(g, W_GUARD); }

void abort(void) {
  if (!g_res) { _exit(134); }
  if (!inRun() && !cur) { rawSyscall(SYS_kill, getpid(), SIGKILL, 0, 0, 0, 0); _exit(4); }
  // What was printed last, it is the failed expression normally.
  char msg[600]; size_t n = (size_t)(stderr->_IO_write_ptr - stderr->_IO_write_base);
  if (n >= sizeof(msg)) n = sizeof(msg) - 1;
  memcpy(msg, stderr->_IO_write_ptr - n, n); msg[n] = 0;
  char cls[100]; size_t o = (size_t)snprintf(cls, sizeof(cls), "abort");
  const char* p = strstr(msg, "failed: ");
  if (p) {
    p += 8; cls[o++] = ':';
    int depth = 0;
    for (; *p && o < sizeof(cls) - 1; ++p) {
      if (*p == '(') ++depth;
      cls[o++] = (*p > ' ' && *p != '"' && *p != ',' && *p != '%') ? *p : '_';
      if (*p == ')' && --depth == 0) break;
    }
    cls[o] = 0;
  }
  violation("*", cls, "the process aborts, pc %p: %s", PC, msg);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { violation("*", "abort", "assert(%s) %s:%u", e, f, l); }
void __cxa_pure_virtual(void) { violation("*", "pure-virtual", "a pure virtual call"); }
}

void* operator new(size_t n) { return heapAlloc(n, PC); }
void* operator new[](size_t n) { return heapAlloc(n, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heapAlloc(n, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heapAlloc(n, PC); }
void operator delete(void* p) noexcept { heapFree(p, PC); }
void operator delete[](void* p) noexcept { heapFree(p, PC); }
void operator delete(void* p, size_t) noexcept { heapFree(p, PC); }
void operator delete[](void* p, size_t) noexcept { heapFree(p, PC); }

// ------------------------------------------------------- compiler instrumentation ----
namespace sim {
struct SyncVar { VC rel; };
// Open addressing hash: address -> index.
struct SyncTab { uintptr_t* key; uint32_t* idx; uint32_t cap, n; Vec<VC>* v; };
static SyncTab g_sync;
static VC* syncFind(uintptr_t a, bool create) {
  if (!g_sync.key) {
    g_sync.cap = 1 << 14;
    g_sync.key = (uintptr_t*)calloc(g_sync.cap, sizeof(uintptr_t));
    g_sync.idx = (uint32_t*)calloc(g_sync.cap, sizeof(uint32_t));
    g_sync.v = (Vec<VC>*)malloc(sizeof(Vec<VC>)); new (g_sync.v) Vec<VC>();
  }
  if (create && g_sync.n * 2 > g_sync.cap) {
    uint32_t oc = g_sync.cap; uintptr_t* ok = g_sync.key; uint32_t* oi = g_sync.idx;
    g_sync.cap *= 2;
    g_sync.key = (uintptr_t*)calloc(g_sync.cap, sizeof(uintptr_t));
    g_sync.idx = (uint32_t*)calloc(g_sync.cap, sizeof(uint32_t));
    for (uint32_t i = 0; i < oc; ++i) if (ok[i]) {
      uint32_t h = (uint32_t)mix64(ok[i]) & (g_sync.cap - 1);
      while (g_sync.key[h]) h = (h + 1) & (g_sync.cap - 1);
      g_sync.key[h] = ok[i]; g_sync.idx[h] = oi[i];
    }
    free(ok); free(oi);
  }
  uint32_t h = (uint32_t)mix64(a) & (g_sync.cap - 1);
  while (g_sync.key[h] && g_sync.key[h] != a) h = (h + 1) & (g_sync.cap - 1);
  if (!g_sync.key[h]) {
    if (!create) return nullptr;
    g_sync.key[h] = a; VC z; memset(&z, 0, sizeof(z)); g_sync.v->push_back(z); g_sync.idx[h] = (uint32_t)g_sync.v->size() - 1; ++g_sync.n;
  }
  return &(*g_sync.v)[g_sync.idx[h]];
}
static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void atomicPoint(int op, const volatile void* a, size_t n, bool w, void* pc) {
  uintptr_t p = (uintptr_t)a;
  checkMem((const void*)a, n, w, pc);
  bool shared = true;
  if (inArena(p)) {
    uint8_t* o = ownerOf(p);
    uint8_t me = (uint8_t)(cur->id + 1);
    if (*o == 0) { *o = me; shared = false; }
    else if (*o == me) shared = false;
    else *o = 0xFF;
  }
  if (shared) { schedPoint(op, (const void*)a, pc); checkMem((const void*)a, n, w, pc); }
  else { ++g_steps; if ((g_steps & 255) == 0) stepCheck(); g_plainSince = 0; }
}
static inline void hbLoad(const volatile void* a, int mo) {
  VC* s = syncFind((uintptr_t)a, false);
  if (!s) return;
  if (isAcq(mo)) vcJoin(&cur->vc, s);
  else { if (!cur->hasAcqPend) { memset(&cur->acqPend, 0, sizeof(VC)); cur->hasAcqPend = true; } vcJoin(&cur->acqPend, s); vjoin(cur->vc.x, s->x); }
}
static inline void hbStore(const volatile void* a, int mo, bool rmw) {
  VC* s = syncFind((uintptr_t)a, true);
  if (isRel(mo)) {
    if (rmw) vcJoin(s, &cur->vc); else *s = cur->vc;
  } else {
    if (cur->hasRelFence) { if (rmw) vjoin(s->c, cur->relFence.c); else memcpy(s->c, cur->relFence.c, sizeof(s->c)); }
    else if (!rmw) memset(s->c, 0, sizeof(s->c));
    if (rmw) vjoin(s->x, cur->vc.x); else memcpy(s->x, cur->vc.x, sizeof(s->x));
  }
  vcTick();
}
template<typename T> static T aLoad(const volatile T* a, int mo, void* pc) {
  if (!g_inRun) return *a;
  atomicPoint(OP_ATOMIC_LOAD, a, sizeof(T), false, pc);
  hbLoad(a, mo);
  return *a;
}
template<typename T> static void aStore(volatile T* a, T v, int mo, void* pc) {
  if (!g_inRun) { *a = v; return; }
  atomicPoint(OP_ATOMIC_STORE, a, sizeof(T), true, pc);
  hbStore(a, mo, false);
  *a = v;
}
template<typename T, typename F> static T aRmw(volatile T* a, int mo, void* pc, F f) {
  if (!g_inRun) { T o = *a; *a = f(o); return o; }
  atomicPoint(OP_ATOMIC_RMW, a, sizeof(T), true, pc);
  hbLoad(a, mo);
  hbStore(a, mo, true);
  T o = *a; *a = f(o);
  return o;
}
template<typename T> static T aCas(volatile T* a, T c, T v, int mo, int fmo, void* pc) {
  if (!g_inRun) { T o = *a; if (o == c) *a = v; return o; }
  atomicPoint(OP_ATOMIC_CAS, a, sizeof(T), true, pc);
  T o = *a;
  if (o == c) { hbLoad(a, mo); hbStore(a, mo, true); *a = v; }
  else hbLoad(a, fmo);
  return o;
}
}

extern "C" {
static void memAccess(const void* p, size_t n, bool w, void* pc) { checkMem(p, n, w, pc); if (g_inRun && inArena((uintptr_t)p)) raceCheck((uintptr_t)p, n, w, pc); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void* p) { plainAccess(p, n, false, PC); } \
void __tsan_write##n(void* p) { plainAccess(p, n, true, PC); } \
void __tsan_read_write##n(void* p) { plainAccess(p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p) { plainAccess(p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p) { plainAccess(p, n, true, PC); } \
void __tsan_unaligned_read_write##n(void* p) { plainAccess(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { plainAccess(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plainAccess(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { memAccess(s, n, false, PC); memAccess(d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { memAccess(s, n, false, PC); memAccess(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) memAccess(d, n, true, PC); return memset(d, c, n); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T* a, int mo) { return aLoad<T>(a, mo, PC); } \
void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { aStore<T>(a, v, mo, PC); } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T) { return v; }); } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }); } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }); } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }); } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }); } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); }); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { return aCas<T>(a, c, v, mo, fmo, PC); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { T o = aCas<T>(a, *c, v, mo, fmo, PC); if (o == *c) return 1; *c = o; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { T o = aCas<T>(a, *c, v, mo, fmo, PC); if (o == *c) return 1; *c = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!inRun()) return;
  schedPoint(OP_FENCE, nullptr, PC);
  if (isAcq(mo) && cur->hasAcqPend) vcJoin(&cur->vc, &cur->acqPend);
  if (isRel(mo)) { cur->relFence = cur->vc; cur->hasRelFence = true; vcTick(); }
}
void __tsan_atomic_signal_fence(int) {}
}
