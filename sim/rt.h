// Deterministic simulation runtime: fibers, virtual clock, seeded choices, checked heap.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdlib>
#include <vector>
#include <map>
#include <string>
#include <functional>

namespace sim {

constexpr int MAXF = 32;             // Fibers (simulated threads) per run.
constexpr uint64_t NEVER = UINT64_MAX;
constexpr uint64_t US = 1000, MS = 1000000, SEC = 1000000000;

// ---------------------------------------------------------------- choices ----
// Every nondeterministic decision of a run is one call of choose(). The value 0 is
// always the benign default.
enum Kind : uint8_t {
  K_SCHED,      // Which runnable fiber continues.
  K_STALL,      // The fiber reaching a scheduling point is paused for a while.
  K_PLAINGAP,   // Preempt after that many plain memory accesses.
  K_CFG,        // Knobs of the run.
  K_INPUT,      // Workload inputs.
  K_OP,         // Workload operation choices.
  K_FAULT,      // A fault fires or not.
  K_FAULTARG,   // How it looks like.
  K_NET,        // Network latencies and splits.
  K_TIMER,      // Timer latenesses.
  K_PICK,       // Other picks (condvar waiter, event order).
  K_COUNT
};
const char* kindName(int k);

// ----------------------------------------------------------------- faults ----
#define SIM_FAULTS(X) \
  X(stall_thread) X(preempt_plain) X(spurious_wakeup) X(clock_jump) X(late_timer) \
  X(conn_refused) X(conn_timeout) X(conn_unreach) X(conn_immediate_err) X(conn_immediate_ok) \
  X(conn_reset) X(short_send) X(short_recv) X(send_eagain) X(recv_split) X(net_delay) X(net_stall) \
  X(partition) X(accept_err) X(accept_abort) X(sockopt_fail) X(socket_emfile) X(eintr) X(epoll_eintr) \
  X(peer_fin) X(peer_stall) X(fd_reuse) X(dns_fail) X(dns_delay) X(tls_corrupt) X(tls_truncate) \
  X(uring_late) X(uring_reorder) X(uring_short_submit) X(cancel_race) X(peer_rst) X(bind_fail) X(io_error) \
  X(chunk_split) X(event_merge) X(send_fail) X(recv_fail)
enum Fault : uint16_t {
#define X(n) F_##n,
  SIM_FAULTS(X)
#undef X
  F_COUNT
};
const char* faultName(int f);

// -------------------------------------------------------------------- api ----
uint32_t choose(Kind k, uint32_t n);                 // Uniform in [0, n).
bool chance(Kind k, uint32_t num, uint32_t den);     // 1 with probability num/den.
bool fault(Fault f);                                 // Asks whether an enabled fault fires.
bool faultEnabled(Fault f);
void countFault(Fault f);
void faultsOff();                                    // From now on nothing is injected, fair scheduling.
bool faultsAreOff();
inline uint32_t in(uint32_t n) { return choose(K_INPUT, n); }
inline uint32_t op(uint32_t n) { return choose(K_OP, n); }
// Size biased to small values and edges, below n.
uint32_t inSize(uint32_t n);
void allowFaults(std::initializer_list<Fault> fs);   // The faults which make sense in this run.

uint64_t now();                                      // Virtual nanoseconds.
inline uint64_t nowMs() { return now() / MS; }
uint64_t stepNo();
bool calm();               // Nothing in this run makes threads or timers late.
void noteDelay(uint64_t ns);
uint64_t injectedDelay();   // All the time for which anything was made late by the faults above.
uint64_t busyTime();       // Virtual time spent by steps, not by idling.
void timeCap(uint64_t sec);   // The run may take that much of the virtual time.
int self();                                          // Current fiber.

int spawn(const char* name, std::function<void()> fn);
void join(int fiber);
void sleepNs(uint64_t ns);
void yield();                                        // A plain scheduling point.
// Wait until the predicate is true, re-evaluated at every other fiber's step.
// Returns false when the time runs out.
bool waitUntil(std::function<bool()> pred, uint64_t timeoutNs);
// Waits, then stops the faults and waits again for a generous amount of time.
bool eventually(std::function<bool()> pred);
// The bound used for 'eventually': a generous amount of virtual time.
constexpr uint64_t PROGRESS = 600 * SEC;

// No preemption while an object of this is alive.
struct Atomic { Atomic(); ~Atomic(); };

[[noreturn]] void violation(const char* props, const char* cls, const char* fmt, ...)
  __attribute__((format(printf, 3, 4)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(cond, props, cls, ...) do { if (!(cond)) ::sim::violation(props, cls, __VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // Only into the trace.
bool tracing();
void probe(const char* name);                         // "This condition was reached".
bool on(const char* prop);                            // Property under check (or all).
const char* prop();
void stage(const char* s);                            // Shown in failures.

// Payload tracking: happens-before checks on plain accesses done through these.
void payloadWrite(const void* p, size_t n, const char* what);
void payloadRead(const void* p, size_t n, const char* what);
void payloadForget(const void* p, size_t n);

// Heap accounting.
uint64_t liveAllocs();
uint64_t liveBytes();
uint64_t allocMark();                                 // For liveSince().
uint64_t liveSince(uint64_t mark, size_t* firstSize, void** firstPc);
// Blocks not smaller than the size aren't counted, but their bytes are summed up.
uint64_t liveSmall(uint64_t mark, size_t below, size_t* firstSize, void** firstPc, uint64_t* bigUnits, size_t unit);
uint64_t totalAllocs();
bool isFreed(const void* p);

// ----------------------------------------------------------- runtime only ----
template<typename T> struct MA {
  using value_type = T;
  MA() = default;
  template<typename U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)::malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { ::free(p); }
  template<typename U> bool operator==(const MA<U>&) const { return true; }
  template<typename U> bool operator!=(const MA<U>&) const { return false; }
};
template<typename T> using Vec = std::vector<T, MA<T>>;
template<typename K, typename V> using Map = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;

// 'x' is what is ordered when all the atomic operations are at least acquire-release.
struct VC { uint32_t c[MAXF]; uint32_t x[MAXF]; };

enum SchedOp : uint16_t {
  OP_ATOMIC_LOAD = 1, OP_ATOMIC_STORE, OP_ATOMIC_RMW, OP_ATOMIC_CAS, OP_FENCE,
  OP_MUTEX_LOCK, OP_MUTEX_TRYLOCK, OP_MUTEX_UNLOCK, OP_COND_WAIT, OP_COND_SIGNAL, OP_COND_BCAST,
  OP_THREAD_CREATE, OP_THREAD_JOIN, OP_THREAD_EXIT, OP_SLEEP, OP_CLOCK, OP_YIELD, OP_PLAIN,
  OP_SYSCALL, OP_FREE,
};
void schedPoint(int op, const void* addr, void* pc);
// Blocks the current fiber; false if the deadline came first.
bool block(const void* obj, int kind, uint64_t deadline);
int wakeAll(const void* obj, int kind);
int wakeOne(const void* obj, int kind);               // Picks by choice.
bool hasWaiters(const void* obj, int kind);
void addTimer(uint64_t at, void (*fn)(void*, uint64_t), void* a, uint64_t b);
void hashMix(uint64_t v);
void traceOp(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool inRun();
void checkMem(const void* p, size_t n, bool isWrite, void* pc);
// HB for kernel objects.
void hbRelease(VC* v);
void hbAcquire(const VC* v);
extern bool g_waitSync;                                // A successful waitUntil() orders after the callbacks.
enum { W_MUTEX = 1, W_COND, W_JOIN, W_SLEEP, W_FD, W_HARNESS, W_GUARD, W_URING, W_DNS };
void resetKernel();
int openFdCount();                                     // Descriptors still open in the simulated kernel.
const char* describeOpenFds();

// Workloads.
struct Workload {
  const char* name; const char* props; int weight; void (*fn)(); Workload* next;
};
struct Registrar { Registrar(const char* name, const char* props, int weight, void (*fn)()); };
#define WORKLOAD(name, props, weight) \
  static void name##_wl(); \
  static ::sim::Registrar name##_reg(#name, props, weight, name##_wl); \
  static void name##_wl()
}
