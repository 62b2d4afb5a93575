// Workloads over mg::sch - the task scheduler.
#include "rt.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/Task.h"
#include "mg/sch/TaskScheduler.h"
#include <memory>

using namespace sim;
using mg::sch::Task;
using mg::sch::TaskScheduler;

namespace {

const uint32_t theQueueSizes[] = {3, 1, 2, 4, 5, 8, 16, 64};

// One history of posts. All fields are only touched between scheduling points.
struct World;
struct Job {
  Task task;
  World* w;
  int id;
  uint64_t payload[2];
  int posts = 0, runs = 0;       // External view: every post makes one run.
  bool running = false, inSched = false;
  int repostsLeft = 0;
  bool selfDelete = false, alive = true;
  bool timed = false; uint64_t deadline = 0; bool infinite = false;
  bool touched = false;          // Woken or signalled since the last post.
  uint64_t postInv = 0, postRet = 0;
  bool started = true;
  TaskScheduler* sched;
  uint64_t postMs = 0;
};
struct World {
  std::vector<TaskScheduler*> scheds;
  std::vector<Job*> jobs;
  uint64_t posted = 0, finished = 0, executing = 0;
  int workers = 1;
  bool order = false;            // One worker, only ready tasks: check FIFO.
  int livingChains = 0;
  uint64_t startMs = 0;
};

void enter(Job* j, const char* props) {
  SIM_CHECK(j->alive, "C02", "run-after-delete", "a deleted task is executed");
  SIM_CHECK(!j->running, "C02", "concurrent", "job %d is executed by two workers at once", j->id);
  SIM_CHECK(j->runs < j->posts, "C01 C04", "extra-run", "job %d: execution %d with only %d posts", j->id, j->runs + 1, j->posts);
  j->running = true;
  ++j->runs;
  payloadRead(j->payload, sizeof(j->payload), "data written before the post");
  (void)props;
  uint64_t t = nowMs();
  bool expired = j->task.IsExpired();
  if (j->timed && !j->touched) {
    SIM_CHECK(!j->infinite, "C03", "infinite-ran", "job %d waits for a wakeup only, but is executed without it", j->id);
    SIM_CHECK(t >= j->deadline, "C03", "early", "job %d runs at %llu ms, its deadline is %llu ms", j->id, (unsigned long long)t, (unsigned long long)j->deadline);
    SIM_CHECK(expired, "C03", "not-expired", "job %d reached its deadline but isn't expired", j->id);
    {
      uint64_t slack = 30 + (2 * busyTime() + injectedDelay()) / MS;
      uint64_t due = j->deadline;
      if (due < j->postMs) due = j->postMs;
      if (due < j->w->startMs) due = j->w->startMs;
      SIM_CHECK(t <= due + slack, "C03", "late", "job %d runs %llu ms after its deadline, although nothing was slow", j->id, (unsigned long long)(t - due));
    }
  }
  if (j->timed && !j->infinite && expired)
    SIM_CHECK(t >= j->deadline, "C03", "expired-early", "job %d says it is expired %llu ms before its deadline", j->id, (unsigned long long)(j->deadline - t));
  if (j->timed && j->infinite) SIM_CHECK(!expired, "C03", "infinite-expired", "job %d has no deadline, but is expired", j->id);
  j->started = true;
  if (j->w->order) {
    for (Job* o : j->w->jobs)
      SIM_CHECK(o->started || o->postRet == 0 || o->postRet >= j->postInv, "C06", "order", "job %d starts before job %d which was posted earlier", j->id, o->id);
  }
}
// Called right before the Post.
void prePost(Job* j) {
  ++j->posts; ++j->w->posted;
  j->started = false; j->postRet = 0; j->postInv = stepNo(); j->postMs = nowMs();
}

void runBody(Job* j);
void doPost(Job* j) {
  World* w = j->w;
  prePost(j);
  int mode = w->order ? 0 : (int)op(8);
  j->timed = false; j->infinite = false; j->touched = false; j->deadline = 0;
  TaskScheduler* s = j->sched = w->scheds.size() > 1 ? w->scheds[op((uint32_t)w->scheds.size())] : w->scheds[0];
  int id = j->id;
  Job* saved = j;
  payloadWrite(j->payload, sizeof(j->payload), "data written before the post");
  switch (mode) {
  default:
    s->Post(&j->task);
    break;
  case 5: {
    uint32_t d = in(2) ? inSize(3000) : inSize(12);
    // The time is taken inside.
    j->timed = true; j->deadline = nowMs() + d;
    s->PostDelay(&j->task, d);
    break;
  }
  case 6: {
    uint64_t d = nowMs() + inSize(200);
    if (in(4) == 3) d = nowMs() > 50 ? nowMs() - inSize(50) : 0;
    j->timed = d > 0; j->deadline = d;
    s->PostDeadline(&j->task, d);
    break;
  }
  case 7: {
    // Several ways to say it.
    uint64_t d = nowMs() + inSize(60);
    uint64_t d2 = d + inSize(100);
    j->timed = true;
    j->task.SetDeadline(d2);
    if (op(2)) { j->task.AdjustDeadline(d); j->deadline = d < d2 ? d : d2; }
    else {
      uint32_t dl = inSize(200);
      uint64_t lo = nowMs() + dl;
      j->task.AdjustDelay(dl);
      uint64_t hi = nowMs() + dl;
      j->deadline = j->task.GetDeadline();
      SIM_CHECK(j->deadline >= (lo < d2 ? lo : d2) && j->deadline <= (hi < d2 ? hi : d2), "C03", "adjust", "a delay adjustment gives a wrong deadline");
    }
    SIM_CHECK(j->task.GetDeadline() == j->deadline, "C03", "deadline", "the deadline isn't what was set");
    s->Post(&j->task);
    break;
  }
  }
  // The job may be gone already, unless the poster still holds it.
  (void)id; (void)saved;
}
void finishJob(Job* j) {
  ++j->w->finished;
  --j->w->livingChains;
  if (j->selfDelete) { j->alive = false; for (Job*& o : j->w->jobs) if (o == j) { o = nullptr; break; } 
    std::vector<Job*>& v = j->w->jobs; for (size_t i = 0; i < v.size(); ++i) if (!v[i]) { v.erase(v.begin() + (long)i); break; }
    payloadForget(j->payload, sizeof(j->payload)); delete j; }
}
void runBody(Job* j) {
  enter(j, "");
  uint32_t extra = op(4);
  for (uint32_t i = 0; i < extra; ++i) yield();
  payloadWrite(j->payload, sizeof(j->payload), "data of the previous execution");
  j->running = false;
  if (j->repostsLeft > 0) {
    --j->repostsLeft;
    ++j->w->finished;   // This one is done, the next begins.
    if (op(4) == 3) { j->task.SetCallback([j](Task*) { runBody(j); }); /* the running closure is gone */ }
    doPost(j);
    return;
  }
  finishJob(j);
}
// The callback's closure is destroyed by SetCallback above, hence everything is taken
// from the argument, never from the closure after it.

void checkDone(World& w, uint64_t expect) {
  stage("waiting for all the posts to be executed");
  bool ok = eventually([&] { return w.finished == w.posted && w.livingChains == 0; });
  (void)expect;
  SIM_CHECK(ok, "C01", "lost", "%llu posts, only %llu executions finished", (unsigned long long)w.posted, (unsigned long long)w.finished);
}
}

// Several threads post tasks of all kinds, the tasks re-post and delete themselves.
static void schPosts(bool order) {
  uint64_t mark = allocMark();
  {
    World w;
    w.order = order;
    w.workers = order ? 1 : 1 + (int)in(3);
    uint32_t qsize = theQueueSizes[in(8)];
    int nscheds = (!order && in(4) == 3) ? 2 : 1;
    for (int i = 0; i < nscheds; ++i) w.scheds.push_back(new TaskScheduler("s", i ? theQueueSizes[in(8)] : qsize));
    bool lateStart = in(4) == 3;
    if (!lateStart) for (auto* s : w.scheds) s->Start((uint32_t)w.workers);
    int posters = 1 + (int)in(3);
    std::vector<int> fibers;
    int id = 0;
    uint32_t total = 0;
    for (int p = 0; p < posters; ++p) {
      uint32_t n = 1 + inSize(p == 0 ? 24 : 10);
      total += n;
      std::vector<Job*> mine;
      for (uint32_t i = 0; i < n; ++i) {
        Job* j = new Job();
        j->w = &w; j->id = id++;
        j->payload[0] = j->payload[1] = 7;
        j->repostsLeft = order ? 0 : (int)inSize(4);
        j->selfDelete = in(2);
        j->task.SetCallback([j](Task*) { runBody(j); });
        mine.push_back(j);
        w.jobs.push_back(j);
        ++w.livingChains;
      }
      fibers.push_back(spawn("poster", [&w, mine] {
        for (Job* j : mine) {
          // With the order checked, the post's end must be recorded: then no deletion.
          if (j->w->order) { j->selfDelete = false; doPost(j); j->postRet = stepNo(); }
          else doPost(j);
          if (op(6) == 5) sleepNs((1 + inSize(20)) * MS);
          (void)w;
        }
      }));
    }
    // One-shots too.
    uint32_t oneshots = inSize(6);
    uint32_t oneDone = 0;
    uint64_t oneData = 0;
    fibers.push_back(spawn("oneshots", [&] {
      for (uint32_t i = 0; i < oneshots; ++i) {
        std::unique_ptr<uint64_t> p(new uint64_t(5));
        w.scheds[0]->PostOneShot([&oneDone, q = std::shared_ptr<uint64_t>(std::move(p))] { ++oneDone; if (*q != 5) violation("C01", "oneshot", "captured data is broken"); });
      }
      (void)oneData;
    }));
    if (lateStart) { yield(); w.startMs = nowMs() + 1; for (auto* s : w.scheds) s->Start((uint32_t)w.workers); }
    for (int f : fibers) join(f);
    checkDone(w, total);
    bool ok = eventually([&] { return oneDone == oneshots; });
    SIM_CHECK(ok, "C01", "lost-oneshot", "%u one-shots posted, %u executed", oneshots, oneDone);
    stage("waiting until the scheduler is empty");
    for (auto* s : w.scheds) SIM_CHECK(s->WaitEmpty(), "C07", "wait-empty", "WaitEmpty failed without a timeout");
    stage("stopping");
    for (Job* j : w.jobs) { SIM_CHECK(!j->running, "C02 C07", "runs-after-empty", "a task runs when the scheduler is empty"); }
    for (auto* s : w.scheds) { s->Stop(); delete s; }
    for (Job* j : w.jobs) {
      SIM_CHECK(j->runs == j->posts, "C01", "runs", "job %d: %d posts, %d executions", j->id, j->posts, j->runs);
      payloadForget(j->payload, sizeof(j->payload));
      delete j;
    }
  }
  size_t sz; void* pc;
  uint64_t leaks = liveSince(mark, &sz, &pc);
  SIM_CHECK(leaks == 0, "C07 C01", "leak", "%llu allocations are leaked, the first of %zu bytes from %p", (unsigned long long)leaks, sz, pc);
}
WORKLOAD(sch_posts, "C01 C02 C03 C07 C29", 4) { schPosts(false); }
WORKLOAD(sch_order, "C06 C01", 3) { schPosts(true); }
