// Progress of tasks while others keep the workers of the task scheduler busy without an end.
#include "rt.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/Task.h"
#include "mg/sch/TaskScheduler.h"

using namespace sim;
using mg::sch::Task;
using mg::sch::TaskScheduler;

namespace {

const uint32_t theSizes[] = {2, 1, 3, 4, 5, 8, 16, 64};
struct Fair;
struct Load {
  Fair* f; Task task; bool work = false, far = false; int runs = 0;
  Load(Fair* f) : f(f), task([this](Task*) { run(); }) {}
  void run();
};
struct Probe {
  enum Kind { K_POST, K_DELAY, K_WAKE, K_SIGNAL, K_CORO } kind;
  Fair* f; Task task; int id;
  int rounds = 0, execs = 0;
  bool posted = false, given = false;
  uint64_t deadline = 0;
  Probe(Fair* f, int id, Kind k) : kind(k), f(f), task([this](Task*) { run(); }), id(id) {}
  void run();
  void post();
};
struct Fair {
  TaskScheduler* s = nullptr;
  std::vector<Load*> loads; std::vector<Probe*> probes;
  uint64_t loadExecs = 0, limit = 300, hard = 6000;
  bool stop = false;
  int ended = 0;
};
void Load::run() {
  bool stop, off, slow;
  {
    Atomic a;
    stop = f->stop; ++f->loadExecs; ++runs;
    if (stop) ++f->ended;
    off = f->loadExecs == f->limit; slow = f->loadExecs > f->limit;
    if (!stop && f->loadExecs > f->hard) {
      char b[600]; size_t o = 0; b[0] = 0;
      for (Probe* p : f->probes) if (o + 80 < sizeof(b)) o += (size_t)snprintf(b + o, sizeof(b) - o, " [task %d kind %d execs %d rounds left %d posted %d given %d]", p->id, p->kind, p->execs, p->rounds, p->posted, p->given);
      violation("C30 C01", "starved", "%llu executions of busy tasks, the last %llu of them with no faults, others make no progress:%s", (unsigned long long)f->loadExecs, (unsigned long long)(f->hard - f->limit), b);
    }
  }
  if (stop) return;
  if (off) { probe("load_faults_off"); faultsOff(); }
  // The others need some time too: for the delays and the sleeps of the harness.
  if (slow) sleepNs(20 * MS);
  else if (work) sleepNs((uint64_t)(1 + op(20)) * 10 * US);
  if (far && op(2)) { f->s->PostDelay(&task, 100000000); task.PostWakeup(); }
  else if (op(4) == 0) f->s->PostDeadline(&task, mg::box::GetMilliseconds());
  else f->s->Post(&task);
}
void Probe::post() {
  // The task isn't touched after the post by this thread: can be executed at once.
  { Atomic a; posted = true; given = false; deadline = 0; }
  switch (kind) {
  default: f->s->Post(&task); break;
  case K_DELAY: { uint32_t d = op(10); { Atomic a; deadline = nowMs() + d; } f->s->PostDelay(&task, d); break; }
  case K_WAKE: case K_SIGNAL: if (op(2)) f->s->PostWait(&task); else f->s->PostDelay(&task, 100000000); break;
  }
}
void Probe::run() {
  bool again;
  {
    Atomic a;
    SIM_CHECK(posted, "C01 C30", "extra-run", "task %d is executed without a post", id);
    SIM_CHECK(nowMs() >= deadline, "C03 C30", "early", "task %d is executed before its deadline", id);
    if (kind == K_WAKE || kind == K_SIGNAL) SIM_CHECK(given, "C03 C30", "early", "task %d waits forever, but is executed", id);
    posted = false; ++execs;
    again = --rounds > 0;
  }
  if (kind == K_SIGNAL) SIM_CHECK(task.ReceiveSignal(), "C05 C30", "signal", "task %d was signalled, but has no signal", id);
  if (again) post();
}
void run() {
  uint64_t mark = allocMark();
  Fair* f = new Fair();
  static const uint32_t threadCounts[] = {1, 2, 3, 4};
  uint32_t threads = threadCounts[choose(K_CFG, 4)];
  f->s = new TaskScheduler("fair", theSizes[choose(K_CFG, 8)]);
  int nload = 1 + (int)choose(K_CFG, 4), nprobe = 1 + (int)choose(K_CFG, 5);
  for (int i = 0; i < nload; ++i) { Load* l = new Load(f); l->work = op(3) == 0; l->far = op(3) == 0; f->loads.push_back(l); }
  for (int i = 0; i < nprobe; ++i) { Probe* p = new Probe(f, i, (Probe::Kind)op(4)); p->rounds = 1 + (int)op(4); f->probes.push_back(p); }
  bool late = op(4) == 0;
  if (!late) f->s->Start(threads);
  for (Load* l : f->loads) f->s->Post(&l->task);
  for (Probe* p : f->probes) p->post();
  if (late) f->s->Start(threads);
  stage("progress under load");
  auto wait = [](std::function<bool()> c) { while (!waitUntil(c, NEVER)); };
  std::vector<int> fibers;
  for (Probe* p : f->probes) {
    if (p->kind != Probe::K_WAKE && p->kind != Probe::K_SIGNAL) continue;
    fibers.push_back(spawn("giver", [p, wait] {
      for (;;) {
        bool end = false;
        wait([&] { end = p->rounds == 0; return end || (p->posted && !p->given); });
        if (end) break;
        // The poster might be not done with the post yet. A wake-up before it takes effect then.
        if (op(2)) sleepNs((uint64_t)op(20) * 100 * US);
        { Atomic a; p->given = true; }
        if (p->kind == Probe::K_WAKE) p->task.PostWakeup(); else p->task.PostSignal();
      }
    }));
  }
  wait([&] { for (Probe* p : f->probes) if (p->rounds > 0 || p->posted) return false; return true; });
  for (int x : fibers) join(x);
  { Atomic a; f->stop = true; }
  stage("the end");
  bool ok = eventually([&] { return f->ended == nload; });
  SIM_CHECK(ok, "C01 C30", "lost-task", "%d busy tasks of %d have ended", f->ended, nload);
  SIM_CHECK(f->s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
  delete f->s;
  probe("fair_done");
  for (Load* l : f->loads) delete l;
  for (Probe* p : f->probes) delete p;
  { Atomic a; delete f; std::vector<int>().swap(fibers); }
  size_t sz = 0; void* pc = nullptr;
  uint64_t leaks = liveSince(mark, &sz, &pc);
  SIM_CHECK(leaks == 0, "C07", "leak", "%llu allocations are leaked, the first of %zu bytes from %p", (unsigned long long)leaks, sz, pc);
}
}
WORKLOAD(sch_fair, "C30 C01", 2) { run(); }
