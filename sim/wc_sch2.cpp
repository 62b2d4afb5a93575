// Workloads over mg::sch: wake-ups, signals, the life cycle, coroutines.
#include "rt.h"
#include "mg/box/Coro.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/Task.h"
#include "mg/sch/TaskScheduler.h"
#include <memory>

using namespace sim;
using mg::sch::Task;
using mg::sch::TaskScheduler;

namespace {
const uint32_t theSizes[] = {2, 1, 3, 4, 5, 8, 16, 64};

void noLeaks(uint64_t mark, const char* props) {
  size_t sz = 0; void* pc = nullptr;
  uint64_t leaks = liveSince(mark, &sz, &pc);
  SIM_CHECK(leaks == 0, props, "leak", "%llu allocations are leaked, the first of %zu bytes from %p", (unsigned long long)leaks, sz, pc);
}

struct Base {
  Task task;
  int id = 0;
  int posts = 0, runs = 0;
  bool running = false;
  uint64_t payload = 0;
  uint64_t deadline = 0; bool timed = false;
  uint64_t lastBegin = 0, beginMs = 0;
  std::vector<TaskScheduler*>* scheds;

  void enter(bool ordered = true) {
    SIM_CHECK(!running, "C01 C02 C04 C05", "concurrent", "task %d is executed by two workers at once", id);
    SIM_CHECK(runs < posts, "C01 C02 C04 C05", "extra-run", "task %d: execution %d with only %d posts", id, runs + 1, posts);
    running = true; ++runs;
    lastBegin = stepNo(); beginMs = nowMs();
    // Executions are ordered with the posts.
    if (ordered) payloadRead(&payload, 8, "the state of the task");
    bool e = task.IsExpired();
    if (timed && deadline == MG_TIME_INFINITE) SIM_CHECK(!e, "C03 C04 C05", "infinite-expired", "task %d has no deadline but is expired", id);
    else if (timed && e) SIM_CHECK(nowMs() >= deadline, "C03 C04 C05", "expired-early", "task %d is expired before its deadline", id);
  }
  void leave() { payloadWrite(&payload, 8, "the state of the task"); running = false; }
  // Far: the deadline must never come in this run.
  void post(bool far) {
    leave();
    ++posts;
    TaskScheduler* s = (*scheds)[scheds->size() > 1 ? op((uint32_t)scheds->size()) : 0];
    timed = true;
    switch (op(far ? 3 : 6)) {
    default: deadline = MG_TIME_INFINITE; s->PostWait(&task); break;
    case 1: deadline = nowMs() + 100000000; s->PostDeadline(&task, deadline); break;
    case 2: deadline = nowMs() + 100000000; s->PostDelay(&task, 100000000); break;
    case 3: timed = false; s->Post(&task); break;
    case 4: { uint32_t d = inSize(100); deadline = nowMs() + d; s->PostDelay(&task, d); break; }
    case 5: { uint32_t d = inSize(10); deadline = nowMs() + d; s->PostDeadline(&task, deadline); break; }
    }
  }
};

struct Scheds {
  std::vector<TaskScheduler*> v;
  uint32_t threads;
  Scheds(bool two) {
    uint32_t n = two && in(3) == 2 ? 2 : 1;
    threads = 1 + in(3);
    for (uint32_t i = 0; i < n; ++i) v.push_back(new TaskScheduler("s", theSizes[in(8)]));
    for (auto* s : v) s->Start(threads);
  }
  ~Scheds() {
    stage("waiting until empty");
    for (auto* s : v) SIM_CHECK(s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
    stage("stopping");
    for (auto* s : v) { if (op(2)) s->Stop(); delete s; }
    stage("stopped");
  }
};

// ------------------------------------------------------------------ wake-ups ----
struct WakeTask : Base {
  uint64_t given = 0, returned = 0, seen = 0, expect = 0;
  uint64_t lastGiven = 0;
  bool done = false;
  bool far = false;
  int spin = 0;
};
void wakeBody(WakeTask* t) {
  t->enter();
  t->seen = t->given;
  for (uint32_t i = op(4); i > 0; --i) yield();
  if (t->seen == t->expect) { t->leave(); t->done = true; return; }
  if (t->spin > 0) --t->spin;
  t->post(t->far || t->spin == 0);
}
}

WORKLOAD(sch_wake, "C04 C01 C02 C03 C29", 4) {
  uint64_t mark = allocMark();
  {
    Scheds s(true);
    uint32_t n = 1 + inSize(4);
    std::vector<WakeTask*> tasks;
    for (uint32_t i = 0; i < n; ++i) {
      WakeTask* t = new WakeTask();
      t->id = (int)i; t->scheds = &s.v; t->far = in(3) != 0;
      t->spin = 1 + (int)inSize(12);
      t->task.SetCallback([t](Task*) { wakeBody(t); });
      tasks.push_back(t);
    }
    uint32_t wakers = 1 + in(3);
    std::vector<int> fs;
    std::vector<std::vector<uint32_t>> plan(wakers);
    for (auto& p : plan) { uint32_t m = 1 + inSize(10); for (uint32_t i = 0; i < m; ++i) { p.push_back(in(n)); ++tasks[p.back()]->expect; } }
    bool early = in(2);
    auto start = [&] { for (auto* t : tasks) { if (t->expect == 0) { t->done = true; continue; } t->post(t->far); } };
    if (!early) start();
    for (auto& p : plan) fs.push_back(spawn("waker", [&p, &tasks] {
      for (uint32_t i : p) {
        WakeTask* t = tasks[i];
        ++t->given; t->lastGiven = stepNo();
        t->task.PostWakeup();
        ++t->returned;
        if (op(4) == 3) sleepNs(inSize(3000) * US);
      }
    }));
    if (early) start();
    for (int f : fs) join(f);
    stage("all the wake-ups are given");
    bool ok = eventually([&] { for (auto* t : tasks) if (!t->done) return false; return true; });
    for (auto* t : tasks)
      SIM_CHECK(t->done, "C04 C01", "lost-wakeup", "task %d: %llu wake-ups given, the last execution saw %llu; %d posts, %d executions", t->id, (unsigned long long)t->given, (unsigned long long)t->seen, t->posts, t->runs);
    (void)ok;
    for (auto* t : tasks) SIM_CHECK(t->runs == t->posts, "C04 C01", "runs", "task %d: %d posts, %d executions", t->id, t->posts, t->runs);
    // The last callbacks may be still on their way out.
    for (auto* sc : s.v) SIM_CHECK(sc->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
    for (auto* t : tasks) { payloadForget(&t->payload, 8); delete t; }
  }
  noLeaks(mark, "C04 C01 C07");
}

// ------------------------------------------------------------------- signals ----
namespace {
// One sender, the receiver deletes the task at once.
struct OneShotSignal : Base {
  uint64_t data[3] = {};
  bool sent = false; uint64_t sentAt = 0;
  bool* done;
  int modes = 0;
  bool far;
};
void oneShotBody(OneShotSignal* t) {
  t->enter();
  for (uint32_t i = op(3); i > 0; --i) yield();
  bool is = op(3) == 2 ? t->task.IsSignaled() : false;
  if (is) SIM_CHECK(t->sent, "C05", "phantom", "task %d is signalled before any signal is sent", t->id);
  bool skip = op(6) == 5 && t->modes > 0;
  if (skip) --t->modes;
  if (!skip && t->task.ReceiveSignal()) {
    SIM_CHECK(t->sent, "C05", "phantom", "task %d receives a signal which was never sent", t->id);
    payloadRead(t->data, sizeof(t->data), "data written before the signal");
    SIM_CHECK(t->data[2] == 42, "C05", "data", "the data of the signal is wrong");
    if (op(3) == 2) SIM_CHECK(!t->task.ReceiveSignal() && !t->task.IsSignaled(), "C05", "twice", "one signal is received twice by task %d", t->id);
    t->leave();
    *t->done = true;
    payloadForget(&t->payload, 8); payloadForget(t->data, sizeof(t->data));
    delete t;
    return;
  }
  SIM_CHECK(skip || !is, "C05", "lost-is", "task %d was signalled, but nothing is received", t->id);
  // A skipped signal must make the next execution immediate.
  t->post(t->far);
}
// Many senders, many signals.
struct ManySignals : Base {
  uint64_t sends = 0, recvs = 0, expect = 0;
  uint64_t lastSendInv = 0, lastRecv = 0;   // Steps.
  struct Cell { uint64_t v = 0; bool returned = false, sent = false; uint64_t inv = 0; };
  std::vector<Cell> cells;
  bool stop = false, done = false, far = false;
  int skips = 0;
  uint64_t sendsAtLastRecv = 0;
};
void manyBody(ManySignals* t) {
  t->enter();
  for (uint32_t i = op(3); i > 0; --i) yield();
  if (!t->stop && t->skips > 0 && op(5) == 4) { --t->skips; t->post(t->far); return; }
  std::vector<ManySignals::Cell*> must;
  for (auto& c : t->cells) if (c.returned) must.push_back(&c);
  uint64_t before = t->sends;
  uint64_t at = stepNo();
  bool got = t->task.ReceiveSignal();
  if (got) {
    SIM_CHECK(t->sends > t->sendsAtLastRecv || t->recvs == 0 || t->sends > t->recvs, "C05", "phantom", "task %d: a signal is received twice", t->id);
    ++t->recvs;
    SIM_CHECK(t->recvs <= t->sends, "C05", "phantom", "task %d: %llu signals sent, %llu received", t->id, (unsigned long long)t->sends, (unsigned long long)t->recvs);
    for (auto* c : must) { payloadRead(&c->v, 8, "data written before the signal"); }
    t->sendsAtLastRecv = before;
    t->lastRecv = stepNo() + 1;
  } else {
    // Sent already, and nothing was received since the sending began.
    for (auto* c : must) SIM_CHECK(c->inv < t->lastRecv, "C05", "lost", "task %d: a sent signal isn't received", t->id);
  }
  (void)at;
  if (t->stop) { t->leave(); t->done = true; return; }
  t->post(t->far);
}
}

WORKLOAD(sch_signal, "C05 C01 C02 C03 C29", 4) {
  uint64_t mark = allocMark();
  {
    Scheds s(true);
    uint32_t n = 1 + inSize(6);
    std::vector<OneShotSignal*> ts;
    std::unique_ptr<bool[]> done(new bool[n]());
    for (uint32_t i = 0; i < n; ++i) {
      OneShotSignal* t = new OneShotSignal();
      t->id = (int)i; t->scheds = &s.v; t->far = in(3) != 0; t->done = &done[i]; t->modes = (int)in(3);
      t->task.SetCallback([t](Task*) { oneShotBody(t); });
      ts.push_back(t);
    }
    uint32_t senders = 1 + in(3);
    std::vector<int> fs;
    bool early = in(3) == 2;
    auto start = [&] { for (auto* t : ts) t->post(t->far); };
    auto sendAll = [&] {
      for (uint32_t k = 0; k < senders; ++k) fs.push_back(spawn("sender", [&, k] {
        for (uint32_t i = k; i < n; i += senders) {
          OneShotSignal* t = ts[i];
          if (op(3) == 2) sleepNs(inSize(20000) * US);
          payloadWrite(t->data, sizeof(t->data), "data written before the signal");
          t->data[2] = 42;
          t->sent = true; t->sentAt = stepNo();
          t->task.PostSignal();
        }
      }));
    };
    // Signals to not posted tasks are legal too: but then the poster mustn't be late.
    if (early) { start(); sendAll(); } else { start(); for (uint32_t i = in(20); i > 0; --i) yield(); sendAll(); }
    for (int f : fs) join(f);
    stage("all the signals are sent");
    bool ok = eventually([&] { for (uint32_t i = 0; i < n; ++i) if (!done[i]) return false; return true; });
    for (uint32_t i = 0; i < n; ++i) SIM_CHECK(ok || done[i], "C05 C01", "lost-signal", "task %u has got no signal although it was sent", i);
  }
  noLeaks(mark, "C05 C01 C07");
}

WORKLOAD(sch_signals, "C05 C04 C01 C03", 3) {
  uint64_t mark = allocMark();
  {
    Scheds s(true);
    uint32_t n = 1 + in(2);
    uint32_t senders = 1 + in(3);
    bool wakesToo = in(3) == 2;
    std::vector<ManySignals*> ts;
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> plan(senders);
    for (uint32_t i = 0; i < n; ++i) {
      ManySignals* t = new ManySignals();
      t->id = (int)i; t->scheds = &s.v; t->far = in(3) != 0; t->skips = (int)in(3);
      uint32_t m = 1 + inSize(8);
      t->cells.resize(m); t->expect = m;
      for (uint32_t k = 0; k < m; ++k) plan[in(senders)].push_back({i, k});
      t->task.SetCallback([t](Task*) { manyBody(t); });
      ts.push_back(t);
    }
    for (auto* t : ts) t->post(t->far);
    std::vector<int> fs;
    for (auto& p : plan) fs.push_back(spawn("sender", [&] {
      for (auto& x : p) {
        ManySignals* t = ts[x.first];
        ManySignals::Cell* c = &t->cells[x.second];
        if (op(4) == 3) sleepNs(inSize(2000) * US);
        payloadWrite(&c->v, 8, "data written before the signal");
        ++t->sends; t->lastSendInv = c->inv = stepNo(); c->sent = true;
        t->task.PostSignal();
        c->returned = true;
      }
    }));
    if (wakesToo) fs.push_back(spawn("waker", [&] {
      for (uint32_t i = 1 + inSize(8); i > 0; --i) { ts[op(n)]->task.PostWakeup(); if (op(3) == 2) sleepNs(inSize(100) * US); }
    }));
    for (int f : fs) join(f);
    // Everything sent must be received without any further help.
    stage("all the signals are sent");
    bool ok = eventually([&] { for (auto* t : ts) for (auto& c : t->cells) if (c.inv >= t->lastRecv) return false; return true; });
    for (auto* t : ts) SIM_CHECK(ok, "C05", "lost-signal", "task %d: %llu signals sent, %llu received, the last isn't", t->id, (unsigned long long)t->sends, (unsigned long long)t->recvs);
    for (auto* t : ts) { t->stop = true; t->task.PostWakeup(); }
    ok = eventually([&] { for (auto* t : ts) if (!t->done) { return false; } return true; });
    SIM_CHECK(ok, "C04", "lost-wakeup", "the final wake-up has not worked");
    for (auto* sc : s.v) SIM_CHECK(sc->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
    for (auto* t : ts) {
      SIM_CHECK(t->runs == t->posts, "C05 C01", "runs", "task %d: %d posts, %d executions", t->id, t->posts, t->runs);
      payloadForget(&t->payload, 8); for (auto& c : t->cells) payloadForget(&c.v, 8); delete t;
    }
  }
  noLeaks(mark, "C05 C01 C07");
}

// ---------------------------------------------------------------- life cycle ----
namespace {
struct LifeWorld;
struct LifeJob {
  Task task; LifeWorld* w; int left; bool del; bool chainDone = false; uint64_t postedRet = 0; bool posted = false;
  uint64_t payload = 0;
  int runs = 0, posts = 0; bool running = false;
};
struct LifeWorld {
  TaskScheduler* s;
  std::vector<LifeJob*> jobs;
  int executing = 0;
  bool mayRun = true;     // False between a returned Stop and the next Start.
};
void lifeBody(LifeJob* j) {
  LifeWorld* w = j->w;
  SIM_CHECK(w->mayRun, "C07", "runs-stopped", "a task is executed while the scheduler is stopped");
  SIM_CHECK(!j->running && j->runs < j->posts, "C02 C07", "extra-run", "a task runs without a post");
  j->running = true; ++j->runs; ++w->executing;
  payloadRead(&j->payload, 8, "data of the previous execution");
  for (uint32_t i = op(6); i > 0; --i) yield();
  if (op(8) == 7) sleepNs(inSize(20000) * US);
  payloadWrite(&j->payload, 8, "data of the previous execution");
  j->running = false; --w->executing;
  if (--j->left >= 0) {
    ++j->posts;
    switch (op(4)) {
    default: w->s->Post(&j->task); break;
    case 2: w->s->PostDelay(&j->task, inSize(50)); break;
    case 3: { uint64_t d = nowMs() + inSize(10); w->s->PostDeadline(&j->task, d); break; }
    }
    return;
  }
  j->chainDone = true;
}
}

WORKLOAD(sch_life, "C07 C01 C29", 5) {
  uint64_t mark = allocMark();
  {
    LifeWorld w;
    w.s = new TaskScheduler("l", theSizes[in(8)]);
    if (in(4) == 3) w.s->Reserve(in(100));
    uint32_t threads = 1 + in(3);
    uint32_t rounds = 1 + inSize(4);
    bool startFirst = in(2);
    w.mayRun = startFirst;
    if (startFirst) w.s->Start(threads);
    std::vector<int> fs;
    uint32_t posters = 1 + in(2);
    for (uint32_t p = 0; p < posters; ++p) {
      uint32_t n = 1 + inSize(8);
      std::vector<LifeJob*> mine;
      for (uint32_t i = 0; i < n; ++i) {
        LifeJob* j = new LifeJob();
        j->w = &w; j->left = (int)inSize(4); j->del = false;
        j->task.SetCallback([j](Task*) { lifeBody(j); });
        mine.push_back(j); w.jobs.push_back(j);
      }
      fs.push_back(spawn("poster", [&w, mine] {
        for (LifeJob* j : mine) {
          payloadWrite(&j->payload, 8, "data of the previous execution");
          ++j->posts;
          w.s->Post(&j->task);
          j->posted = true;
          if (op(3) == 2) sleepNs(inSize(3000) * US);
        }
      }));
    }
    // Waiting threads.
    uint32_t waiters = in(3);
    bool quit = false;
    for (uint32_t k = 0; k < waiters; ++k) fs.push_back(spawn("waiter", [&w, &quit] {
      for (uint32_t i = 1 + inSize(12); i > 0 && !quit; --i) {
        std::vector<LifeJob*> must;
        for (LifeJob* j : w.jobs) if (j->posted) must.push_back(j);
        uint32_t kind = 2 - (op(4) + 1) / 2;
        uint64_t limit = inSize(100);
        uint64_t t0 = nowMs();
        bool ok;
        if (kind == 0) ok = w.s->WaitEmpty(mg::box::TimeDuration(limit));
        else if (kind == 1) ok = w.s->WaitEmpty(mg::box::TimePoint(t0 + limit));
        else ok = w.s->IsEmpty();
        if (ok) {
          probe("wait_empty_true");
          for (LifeJob* j : must) SIM_CHECK(j->chainDone, "C07", "not-empty", "the scheduler says it is empty while a task posted before isn't finished (%s)", j->running ? "running" : "queued");
        } else if (kind != 2) {
          SIM_CHECK(nowMs() > t0 + limit, "C07", "wait-early", "WaitEmpty fails before its time is out");
        }
        if (op(3) == 2) sleepNs(inSize(5000) * US);
      }
    }));
    // The controller.
    for (uint32_t r = 0; r < rounds; ++r) {
      if (w.mayRun) {
        if (op(3)) sleepNs(inSize(20000) * US);
        stage("stopping");
        std::vector<int> ss;
        uint32_t extra = in(4) == 3 ? 1 : 0;
        for (uint32_t i = 0; i < extra; ++i) ss.push_back(spawn("stopper", [&w] {
          w.s->Stop();
          SIM_CHECK(w.executing == 0, "C07", "stop-early", "Stop has returned while a callback runs");
        }));
        w.s->Stop();
        SIM_CHECK(w.executing == 0, "C07", "stop-early", "Stop has returned while a callback runs");
        for (int f : ss) join(f);
        w.mayRun = false;
        if (op(4) == 3) w.s->Stop();
      } else {
        stage("starting");
        w.mayRun = true;
        w.s->Start(1 + in(3));
      }
      if (op(2)) sleepNs(inSize(2000) * US);
    }
    quit = true;
    if (!w.mayRun) { w.mayRun = true; w.s->Start(threads); }
    stage("joining");
    for (int f : fs) join(f);
    stage("waiting until empty");
    if (in(2)) {
      SIM_CHECK(w.s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
      for (LifeJob* j : w.jobs) SIM_CHECK(j->chainDone, "C07", "not-empty", "the scheduler says it is empty while a task posted before isn't finished (%s)", j->running ? "running" : "queued");
    }
    bool ok = eventually([&] { for (LifeJob* j : w.jobs) if (!j->chainDone) return false; return true; });
    SIM_CHECK(ok, "C07 C01", "lost", "a task is lost over stop and start");
    if (op(2)) {
      stage("a timed wait");
      // Started or not, the scheduler isn't empty, and the waiting ends by its limit.
      if (op(3) == 0) w.s->Stop(), w.mayRun = false;
      bool ran = false;
      mg::box::Signal done;
      Task far([&](Task*) { ran = true; done.Send(); });
      w.s->PostDelay(&far, 2000000000);
      uint32_t limit = inSize(200);
      uint64_t t0 = now();
      bool empty = op(2) ? w.s->WaitEmpty(mg::box::TimeDuration(limit)) : w.s->WaitEmpty(mg::box::TimePoint(nowMs() + limit));
      SIM_CHECK(!empty, "C07", "not-empty", "the scheduler says it is empty while it holds a waiting task");
      SIM_CHECK(now() - t0 < limit * MS + 15 * SEC + 2 * busyTime() + injectedDelay(), "C07", "wait-late", "WaitEmpty(%u ms) took %llu ms", limit, (unsigned long long)((now() - t0) / MS));
      SIM_CHECK(!ran, "C03", "early", "a task runs ages before its deadline");
      far.PostWakeup();
      if (!w.mayRun) w.s->Start(threads), w.mayRun = true;
      done.ReceiveBlocking();
      SIM_CHECK(w.s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
    }
    ok = false;
    for (int i = 0; i < 2000 && !ok; ++i) { if (i == 1000) faultsOff(); ok = w.s->IsEmpty(); if (!ok) sleepNs(10 * MS); }
    SIM_CHECK(ok, "C07", "never-empty", "the scheduler is never empty although all is done");
    stage("deleting");
    if (in(2)) { w.s->Stop(); }
    delete w.s;
    for (LifeJob* j : w.jobs) {
      SIM_CHECK(j->runs == j->posts, "C07 C01", "runs", "%d posts, %d executions", j->posts, j->runs);
      payloadForget(&j->payload, 8); delete j;
    }
  }
  noLeaks(mark, "C07 C01");
}

// ---------------------------------------------------------------- coroutines ----
namespace {
struct CoroWorld {
  std::vector<TaskScheduler*>* scheds;
  int live = 0;                 // Frames' guards alive.
  int tasksLeft = 0;
};
struct Guard {
  CoroWorld* w; int* own; uint64_t magic = 0x77aa77aa;
  Guard(CoroWorld* w, int* own) : w(w), own(own) { ++w->live; ++*own; }
  Guard(const Guard&) = delete;
  ~Guard() { SIM_CHECK(magic == 0x77aa77aa, "C08", "frame", "a broken or twice destroyed coroutine frame"); magic = 0; --w->live; --*own; }
};
struct CTask {
  Task* task; CoroWorld* w; int id;
  int suspends = 0, resumes = 0;      // Since the first post.
  bool running = false;
  uint64_t payload = 0;
  bool member = false;
  uint64_t signalsSent = 0, signalsGot = 0, signalsInv = 0;
  bool finished = false;
  mg::box::Signal* sig = nullptr;
  bool signaller = false;
  int frames = 0;                     // Of this task alone.
  uint64_t wakes = 0;
};
void cin(CTask* c) {
  SIM_CHECK(!c->running, "C08 C02", "concurrent", "coroutine %d is resumed while it runs", c->id);
  SIM_CHECK(!c->finished, "C08", "after-end", "coroutine %d is resumed after its end", c->id);
  c->running = true; ++c->resumes;
  SIM_CHECK(c->resumes == c->suspends, "C08", "resumes", "coroutine %d: %d suspensions, %d resumptions", c->id, c->suspends, c->resumes);
  payloadRead(&c->payload, 8, "the state of a coroutine");
}
void cout_(CTask* c) { payloadWrite(&c->payload, 8, "the state of a coroutine"); c->running = false; ++c->suspends; }

TaskScheduler& cSched(CTask* c) { return *(*c->w->scheds)[c->w->scheds->size() > 1 ? op((uint32_t)c->w->scheds->size()) : 0]; }

mg::box::Coro cWork(CTask* c, int depth, int steps, uint64_t* out, uint64_t value, bool exitInside);

// One suspension of a random sort.
#define C_SUSPEND(c) \
  do { \
    uint32_t kind_ = op(6); \
    uint64_t dl_ = 0; bool timed_ = false; \
    if (kind_ == 1) { dl_ = nowMs() + inSize(100); c->task->SetDeadline(dl_); timed_ = true; } \
    else if (kind_ == 2) { uint32_t d_ = inSize(30); dl_ = nowMs() + d_; c->task->SetDelay(d_); timed_ = true; } \
    uint64_t w0_ = c->wakes, s0_ = c->signalsInv - c->signalsGot; \
    cout_(c); \
    if (kind_ == 5) { bool got_ = co_await c->task->AsyncReceiveSignal(cSched(c)); cin(c); \
      if (got_) { ++c->signalsGot; SIM_CHECK(c->signalsGot <= c->signalsInv, "C08 C05", "phantom", "a signal is received which wasn't sent"); } } \
    else { \
      if (op(2)) co_await c->task->AsyncYield(); else co_await c->task->AsyncYield(cSched(c)); \
      cin(c); } \
    if (timed_ && c->wakes == w0_ && s0_ == 0 && !c->signaller && c->wakes == 0) \
      SIM_CHECK(nowMs() >= dl_, "C08 C03", "early", "coroutine %d is resumed before its deadline", c->id); \
  } while (0)

mg::box::Coro cWork(CTask* c, int depth, int steps, uint64_t* out, uint64_t value, bool exitInside) {
  Guard g(c->w, &c->frames);
  std::unique_ptr<uint64_t> heap(new uint64_t(value));
  for (int i = 0; i < steps; ++i) {
    if (op(3) == 2 && depth > 0) {
      uint64_t r = 0;
      co_await mg::box::CoroCall(cWork(c, depth - 1, (int)op(3), &r, value * 3 + 1, exitInside && op(2)));
      SIM_CHECK(r == value * 3 + 1, "C08", "result", "a nested coroutine hasn't finished before its caller continued");
      SIM_CHECK(c->running, "C08", "nested", "the caller runs outside of an execution");
    } else {
      C_SUSPEND(c);
    }
    SIM_CHECK(*heap == value && g.magic == 0x77aa77aa, "C08", "locals", "the locals of a coroutine are broken");
  }
  if (exitInside && !c->member && !c->sig) {
    // Ends the whole stack from the inside.
    c->finished = true; c->running = false;
    CoroWorld* w = c->w;
    --w->tasksLeft;
    co_await c->task->AsyncExitDelete();
    violation("C08", "unreachable", "a coroutine continues after AsyncExitDelete");
  }
  *out = value;
}
// Calls which don't suspend leave nothing on the stack of the thread.
struct StackUse { uintptr_t lo = ~(uintptr_t)0, hi = 0; uint32_t calls = 0; };
__attribute__((noinline)) void stackMark(StackUse* u) {
  uintptr_t a = (uintptr_t)__builtin_frame_address(0);
  if (a < u->lo) u->lo = a;
  if (a > u->hi) u->hi = a;
  ++u->calls;
}
mg::box::Coro cLeaf(CTask* c, StackUse* u, int depth) {
  Guard g(c->w, &c->frames);
  if (depth > 0) co_await mg::box::CoroCall(cLeaf(c, u, depth - 1));
  stackMark(u);
}
mg::box::Coro cMain(CTask* c, int steps, int how) {
  Guard g(c->w, &c->frames);
  ++c->suspends; cin(c);
  CoroWorld* w = c->w;
  uint64_t r = 0;
  for (int i = 0; i < steps; ++i) {
    co_await mg::box::CoroCall(cWork(c, 2, 1 + (int)op(3), &r, 5, how == 3 && i + 1 == steps));
    SIM_CHECK(r == 5, "C08", "result", "a nested coroutine hasn't finished before its caller continued");
    r = 0;
    C_SUSPEND(c);
    if (op(8) == 7) {
      StackUse u;
      uint32_t calls = 400; int depth = (int)op(3), frames = c->frames;
      for (uint32_t k = 0; k < calls; ++k) co_await mg::box::CoroCall(cLeaf(c, &u, depth));
      SIM_CHECK(u.calls == calls * (1 + depth), "C08", "nested", "a nested coroutine hasn't finished before its caller continued");
      SIM_CHECK(c->frames == frames, "C08", "frames", "finished nested coroutines are not destroyed");
      SIM_CHECK(u.hi - u.lo < 6000, "C08", "stack", "%u calls of a coroutine, none of which suspends, take %llu bytes of the stack", calls, (unsigned long long)(u.hi - u.lo));
    }
  }
  if (c->signaller) {
    // Every coroutine which gets signals gets the last one before the end.
    while (c->signalsGot == 0) {
      uint32_t k = op(3);
      if (k == 0) c->task->SetWait(); else if (k == 1) c->task->SetDeadline(nowMs() + 100000000);
      cout_(c);
      bool got = op(2) ? co_await c->task->AsyncReceiveSignal() : co_await c->task->AsyncReceiveSignal(cSched(c));
      cin(c);
      if (got) { ++c->signalsGot; SIM_CHECK(c->signalsGot <= c->signalsInv, "C08 C05", "phantom", "a signal is received which wasn't sent"); }
    }
  }
  switch (how) {
  case 0: case 3: {
    c->finished = true; c->running = false; --w->tasksLeft;
    co_await c->task->AsyncExitDelete();
    violation("C08", "unreachable", "a coroutine continues after AsyncExitDelete");
  }
  case 1: {
    int* stepsLeft = new int((int)op(3));
    c->running = false;
    co_await c->task->AsyncExitExec([c, w, stepsLeft](Task* t) {
      SIM_CHECK(!c->finished, "C08", "after-end", "the new callback runs after the end");
      if (*stepsLeft > 0) { --*stepsLeft; if (op(2)) t->SetDelay(inSize(10)); cSched(c).Post(t); return; }
      c->finished = true; delete stepsLeft; --w->tasksLeft;
      delete t;
    });
    violation("C08", "unreachable", "a coroutine continues after AsyncExitExec");
  }
  default: {
    c->running = false; c->finished = true;
    co_await c->task->AsyncExitSendSignal(*c->sig);
    violation("C08", "unreachable", "a coroutine continues after AsyncExitSendSignal");
  }
  }
}
}

WORKLOAD(sch_coro, "C08 C01 C02 C29", 5) {
  uint64_t mark = allocMark();
  {
    CoroWorld w;
    Scheds s(true);
    w.scheds = &s.v;
    uint32_t n = 1 + inSize(5);
    w.tasksLeft = 0;
    std::vector<CTask*> cs;
    std::vector<int> fs;
    std::vector<mg::box::Signal*> sigs;
    for (uint32_t i = 0; i < n; ++i) {
      CTask* c = new CTask();
      c->id = (int)i; c->w = &w;
      int how = (int)in(4);
      c->task = new Task();
      c->signaller = how != 3 && in(2);
      if (how == 2) c->sig = new mg::box::Signal(); else ++w.tasksLeft;
      c->task->SetCallback(cMain(c, (int)inSize(4), how));
      cs.push_back(c);
    }
    for (CTask* c : cs) {
      payloadWrite(&c->payload, 8, "the state of a coroutine");
      uint32_t k = op(3);
      TaskScheduler& sc = cSched(c);
      if (k == 1) sc.PostDelay(c->task, inSize(10)); else sc.Post(c->task);
      if (c->signaller) fs.push_back(spawn("signaller", [c] {
        if (op(3) == 2) sleepNs(inSize(5000) * US);
        // Exactly one signal: after it was received the task may be gone.
        ++c->signalsInv;
        c->task->PostSignal();
      }));
      if (c->sig) fs.push_back(spawn("owner", [c] {
        c->sig->ReceiveBlocking();
        SIM_CHECK(c->finished, "C08", "early-exit-signal", "the exit signal comes before the end");
        SIM_CHECK(c->frames == 0, "C08", "early-exit-signal", "the exit signal comes before the coroutine is destroyed");
        delete c->task;
        delete c->sig;
      }));
    }
    for (int f : fs) join(f);
    stage("waiting for the coroutines to end");
    bool ok = eventually([&] { return w.tasksLeft == 0; });
    SIM_CHECK(ok, "C08 C01", "lost", "%d coroutine tasks don't end", w.tasksLeft);
    for (auto* sc : s.v) SIM_CHECK(sc->WaitEmpty(), "C07 C08", "wait-empty", "endless WaitEmpty fails");
    SIM_CHECK(w.live == 0, "C08", "frames", "%d coroutine frames are not destroyed", w.live);
    for (CTask* c : cs) { payloadForget(&c->payload, 8); delete c; }
  }
  noLeaks(mark, "C08");
}

// Emptiness questions racing with the workers' hand-offs.
WORKLOAD(sch_empty, "C07", 3) {
  uint64_t mark = allocMark();
  {
    TaskScheduler* s = new TaskScheduler("e", theSizes[in(8)]);
    s->Start(2 + in(3));
    uint32_t rounds = 1 + inSize(8);
    uint32_t askers = 1 + in(2);
    std::vector<int> fs;
    for (uint32_t a = 0; a < askers; ++a) fs.push_back(spawn("asker", [s, rounds] {
      for (uint32_t r = 0; r < rounds; ++r) {
        uint32_t n = 1 + in(3);
        int done = 0;
        for (uint32_t i = 0; i < n; ++i) s->PostOneShot([&done] { for (uint32_t k = op(12); k > 0; --k) yield(); ++done; });
        uint32_t asks = 1 + op(20);
        bool ok = false;
        for (uint32_t i = 0; i < asks && !ok; ++i) {
          ok = s->IsEmpty();
          if (ok) SIM_CHECK(done == (int)n, "C07", "not-empty", "the scheduler says it is empty while %d of %u tasks posted before aren't finished", (int)n - done, n);
        }
        if (!ok) SIM_CHECK(s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
        SIM_CHECK(done == (int)n, "C07", "not-empty", "the scheduler says it is empty while %d of %u tasks posted before aren't finished", (int)n - done, n);
        if (op(2)) sleepNs(inSize(2000) * US);
      }
    }));
    for (int f : fs) join(f);
    stage("deleting");
    if (in(2)) s->Stop();
    delete s;
  }
  noLeaks(mark, "C07");
}

// Deadlines of days and years ahead.
constexpr uint64_t FAR_MAX = 1000000000000ull;
WORKLOAD(sch_far, "C03 C04", 1) {
  uint64_t mark = allocMark();
  timeCap(100000000);
  {
    static const uint64_t far[] = {2147483646, 2147483647, 2147483648ull, 3000000000ull, 4294967295ull, 4294967296ull, 4294968000ull, 8589934700ull,
      100, 86400000};
    static const uint64_t never[] = {UINT64_MAX - 1, UINT64_MAX / 2, UINT64_MAX - 2000000, INT64_MAX, 9223372036854ull, 4611686018427387904ull};
    TaskScheduler* s = new TaskScheduler("f", theSizes[in(8)]);
    s->Start(1 + in(2));
    int n = 1 + (int)in(3);
    struct One { Task task; uint64_t dl = 0; bool ran = false; };
    std::vector<One*> v;
    uint64_t last = 0;
    int left = n;
    for (int i = 0; i < n; ++i) {
      One* o = new One();
      o->dl = op(4) == 0 ? never[op(6)] : nowMs() + far[op(10)];
      o->task.SetCallback([o, &left](Task* t) {
        Atomic a;
        bool e = t->IsExpired(); uint64_t ms = nowMs();
        SIM_CHECK(!o->ran, "C03 C01", "twice", "a task is executed twice");
        SIM_CHECK(!e || ms >= o->dl, "C03", "early", "a task with the deadline %llu ms is expired at %llu ms", (unsigned long long)o->dl, (unsigned long long)ms);
        if (o->dl < FAR_MAX) SIM_CHECK(e && ms < o->dl + 15000 + (busyTime() * 2 + injectedDelay()) / MS, "C03", "late", "a task with the deadline %llu ms is executed at %llu ms, expired %d",
          (unsigned long long)o->dl, (unsigned long long)ms, e);
        o->ran = true; --left;
      });
      if (o->dl < FAR_MAX) { if (o->dl > last) last = o->dl; }
      v.push_back(o);
      s->PostDeadline(&o->task, o->dl);
      if (op(2)) yield();
    }
    stage("sleeping for long");
    while (nowMs() < last) sleepNs((last - nowMs()) * MS);
    bool ok = eventually([&] { for (One* o : v) if (o->dl < FAR_MAX && !o->ran) return false; return true; });
    SIM_CHECK(ok, "C03", "lost", "a task isn't executed after its deadline");
    for (One* o : v) if (!o->ran) { probe("years_ahead"); o->task.PostWakeup(); }
    ok = eventually([&] { return left == 0; });
    SIM_CHECK(ok, "C04 C03", "lost", "a woken up task with a far deadline isn't executed");
    SIM_CHECK(s->WaitEmpty(), "C07", "wait-empty", "endless WaitEmpty fails");
    delete s;
    for (One* o : v) delete o;
  }
  noLeaks(mark, "C03");
}
