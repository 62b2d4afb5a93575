// Workloads over IOTask and IOCore.
#include "knet.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/box/IOVec.h"
#include "mg/box/Time.h"
#include <cerrno>
#include <cstring>

using namespace sim;
using namespace mg::aio;

namespace {

struct World;
struct Sub;
// What is known from the outside about one life of a task. Outlives the task.
struct Rec {
  int id;
  World* w;
  IOSubscription::Ptr hold;       // For the actors. Dropped when they are done with it.
  Sub* sub;
  bool destroyed = false;
  // The current life.
  bool posted = false, closed = false;
  int closes = 0, lives = 0;
  uint64_t postStep = 0, wakeInv = 0, wakeRet = 0, closeInv = 0;
  int wakesActive = 0;
  uint64_t execStart = 0; int execs = 0;
  // A wake-up arriving between the pick up of the task by a worker and the callback gives one
  // more execution. The pick up is somewhere after the end of the previous execution.
  uint64_t execEnd = 0, pickLow = 0;
  uint64_t deadline = MG_TIME_INFINITE, deadlineSetMs = 0;
  bool armed = false, rescheduled = false, selfWoken = false;
  int64_t fd = -1; uint64_t fdFile = 0;
  int peer = -1;
  bool hadSocket = false;
  bool usable = false;            // The actors can touch it.
  int closersActive = 0;
  bool maybeClose = false;        // A close of the previous life could get into this one.
  // Data.
  bool sendFailed = false, recvFailed = false; // The errors seen.
  uint32_t rgot = 0, rExpect = 0; // Received, how many the peer sends.
  uint32_t sent = 0, sendTotal = 0, peerGot = 0;
  bool peerDead = false;
};
struct World {
  IOCore* core;
  std::vector<Rec*> recs;
  int executing = 0;
  bool stopped = true, ending = false;
  bool simple = false;           // Sockets aren't used at all.
  int rearms = 0;
  bool dataMode = false;
  bool delays = true;
};

const uint32_t theByteMod = 251;

struct Sub : IOSubscription {
  Sub(World* w, Rec* r) : task(*w->core), w(w), r(r) { memset(cell, 0, sizeof(cell)); }
  ~Sub() override {
    Atomic a;
    SIM_CHECK(!inExec, "C17", "deleted-in-exec", "task %d is deleted while executed", r->id);
    r->destroyed = true; r->sub = nullptr;
    payloadForget(cell, sizeof(cell));
  }
  void OnEvent(const IOArgs& args) override;
  void doIo();
  void doSend();
  void plan();
  void close();
  void ioError(IOEvent& ev, bool send);
  // After a successful attempt.
  void checkNotFailed(bool send) {
#if !MG_IOCORE_USE_IOURING
    IoFail f = ioFailOf(r->fdFile);
    SIM_CHECK(!(send ? f.sendErr && !r->sendFailed : f.recvErr && !r->recvFailed), "C17 C20", "lost-error", "task %d: a failed %s is reported as a success", r->id, send ? "send" : "receive");
#else
    (void)send;
#endif
  }

  IOTask task;
  World* w; Rec* r;
  bool inExec = false;
  uint64_t cell[2];
  int budget = 0;
  // Data.
  IOEvent rev, sev;
  mg::box::IOVec rvec[3]; uint8_t rbuf[96];
  mg::box::IOVec svec[2]; uint8_t sbuf[64];
  int attachLater = -1;
};

void Sub::close() {
  Rec* rec = r;
  { Atomic a; if (!rec->closeInv) rec->closeInv = stepNo(); ++rec->closersActive; }
  task.PostClose();
  Atomic a; --rec->closersActive;
}
void Sub::OnEvent(const IOArgs& args) {
  uint64_t t, dl;
  {
    Atomic a;
    SIM_CHECK(!inExec, "C17", "concurrent", "task %d is executed by two workers at once", r->id);
    SIM_CHECK(!r->closed, "C17", "after-close", "task %d is executed after its close event", r->id);
    SIM_CHECK(r->posted, "C17", "not-posted", "task %d is executed, but it isn't posted", r->id);
    SIM_CHECK(!w->stopped, "C18", "exec-stopped", "task %d is executed while the core is stopped", r->id);
    inExec = true; ++w->executing;
    t = nowMs(); dl = r->deadline;
    bool noReason = !r->hadSocket && !r->wakesActive && r->wakeRet < r->pickLow && !r->closeInv && !r->maybeClose && !r->rescheduled && !r->selfWoken;
    if (noReason) {
      SIM_CHECK(dl != MG_TIME_INFINITE, "C17", "spurious", "task %d without a deadline is executed with no reason", r->id);
      SIM_CHECK(t >= dl, "C17", "early", "task %d is executed at %llu ms, its deadline is %llu ms", r->id, (unsigned long long)t, (unsigned long long)dl);
      SIM_CHECK(task.IsExpired(), "C17", "not-expired", "task %d was woken up by its deadline, but isn't expired", r->id);
      probe("task_deadline");
      if (!w->delays) {
        uint64_t slack = 30 + (2 * busyTime() + injectedDelay()) / MS;
        SIM_CHECK(t <= dl + slack, "C17", "late", "task %d is executed %llu ms after its deadline", r->id, (unsigned long long)(t - dl));
      }
    }
    // The expiration is decided by the scheduler, its clock can be slightly behind.
    if (task.IsExpired() && !r->rescheduled)
      SIM_CHECK(dl != MG_TIME_INFINITE && t >= dl, "C17", "expired-early", "task %d says it is expired, its deadline is %llu ms, now %llu ms", r->id, (unsigned long long)dl, (unsigned long long)t);
    r->pickLow = r->execEnd;
    r->execStart = stepNo(); ++r->execs;
    r->deadline = MG_TIME_INFINITE; r->armed = false; r->rescheduled = false; r->selfWoken = false;
  }
  payloadWrite(cell, sizeof(cell), "I/O task executions");
  ++cell[0];
  if (task.IsClosed()) {
    {
      Atomic a;
      SIM_CHECK(r->closeInv || r->maybeClose, "C17", "close-unasked", "task %d is closed, nobody asked for it", r->id);
      SIM_CHECK(task.GetSocket() == mg::net::theInvalidSocket, "C18", "closed-socket", "a closed task still has a socket");
      if (r->fd >= 0) SIM_CHECK(fdFile(r->fd) != r->fdFile, "C18", "socket-open", "task %d is closed, but its socket %d is still open", r->id, (int)r->fd);
      if (attachLater >= 0) { ::close(attachLater); attachLater = -1; }
      r->closed = true; r->posted = false; r->usable = false; ++r->closes; ++r->lives;
      probe("task_closed");
    }
    // IO events must all be free now.
    bool reuse = !w->ending && r->lives < 3 && op(3) == 0;
    if (reuse) {
      Atomic a;
      probe("task_reused");
      r->maybeClose = r->closersActive > 0;
      r->closed = false; r->closeInv = 0; r->wakeInv = r->wakeRet = 0; r->execs = 0; r->execEnd = r->pickLow = 0; r->fd = -1; r->hadSocket = false; r->fdFile = 0; r->sendFailed = r->recvFailed = false;
      r->posted = true; r->postStep = stepNo();
      rev.Reset(); sev.Reset(); r->rgot = r->rExpect = r->sent = r->sendTotal = 0;
      if (r->peer >= 0) { int fd = r->peer; r->peer = -1; peerClose(fd); }
      inExec = false; --w->executing;
      budget = (int)op(3);
    }
    if (reuse) {
      Rec* rec = r; int life = rec->lives;
      IOSubscription::Ptr keep = rec->hold;
      task.Post(this);
      // Not touched any more, might be already executed in another thread.
      bool late;
      { Atomic a; if (rec->lives == life && rec->posted) rec->usable = true; late = w->ending && rec->lives == life; }
      if (late) close();
      return;
    }
    Atomic a;
    inExec = false; --w->executing;
    // 'this' can be deleted right after return.
    r->hold.Clear();
    return;
  }
  {
    Atomic a;
    if (r->fd >= 0) SIM_CHECK(fdFile(r->fd) == r->fdFile, "C18", "closed-early", "the socket %d of task %d was closed before the task", (int)r->fd, r->id);
  }
  mg::box::Error::Ptr err;
  if (!task.ProcessArgs(args, err)) {
    SIM_CHECK(err.IsSet(), "C17", "no-error", "ProcessArgs() failed without an error");
    probe("task_error");
    close();
  } else {
    if (attachLater >= 0 && op(2) == 0) {
      { Atomic a; r->fd = attachLater; r->fdFile = fdFile(attachLater); r->hadSocket = true; }
      int fd = attachLater; attachLater = -1;
      task.AttachSocket(fd);
      probe("task_attach");
    }
    if (task.HasSocket() && w->dataMode) { doIo(); doSend(); }
    plan();
  }
  Atomic a;
  inExec = false; --w->executing; r->execEnd = stepNo();
}
// Failures which are yet to be noticed.
bool ioFailing(const Rec* r) {
  IoFail f = ioFailOf(r->fdFile);
  return f.file && ((f.sendErr && !r->sendFailed) || (f.recvErr && !r->recvFailed));
}
void Sub::ioError(IOEvent& ev, bool send) {
  mg::box::ErrorCode code = ev.PopError();
  SIM_CHECK(code != mg::box::ERR_BOX_NONE, "C17 C20", "no-error", "task %d: an operation failed without an error", r->id);
  IoFail f = ioFailOf(r->fdFile);
  int e = send ? f.sendErr : f.recvErr;
  // Only the first one is remembered.
  if (e && !f.dirty && !(send ? r->sendFailed : r->recvFailed)) {
    SIM_CHECK(code == mg::box::ErrorCodeFromErrno(e), "C17 C20", "wrong-error", "task %d: the error is %u, but the reason was %d", r->id, (unsigned)code, e);
    probe("failure_reported");
  }
  (send ? r->sendFailed : r->recvFailed) = true;
  probe(send ? "send_error" : "recv_error");
  close();
}
void Sub::doIo() {
  if (rev.IsLocked()) return;
  if (!rev.IsEmpty()) {
    // A result of an async operation.
    if (rev.IsError()) { ioError(rev, false); return; }
  } else {
    uint32_t n = 1 + op(3), pos = 0;
    for (uint32_t i = 0; i < n; ++i) { uint32_t k = 1 + op(30); rvec[i].myData = rbuf + pos; rvec[i].mySize = k; pos += k; }
    memset(rbuf, 0xEE, sizeof(rbuf));
    if (!task.Recv(rvec, n, rev)) { ioError(rev, false); return; }
    checkNotFailed(false);
    if (rev.IsLocked()) return;
    if (rev.IsEmpty()) violation("C17", "empty-event", "a successful operation left its event neither locked nor set");
  }
  uint32_t got = rev.PopBytes();
  if (got == 0) { probe("recv_eof"); close(); return; }
  for (uint32_t i = 0; i < got; ++i)
    SIM_CHECK(rbuf[i] == (uint8_t)((r->rgot + i) % theByteMod), "C17 C19", "data", "task %d: wrong byte at %u", r->id, r->rgot + i);
  r->rgot += got;
  SIM_CHECK(r->rgot <= r->rExpect, "C17 C19", "data", "received more than sent");
  // More can be there.
  task.Reschedule(); r->rescheduled = true;
}
void Sub::doSend() {
  if (sev.IsLocked()) return;
  if (!sev.IsEmpty()) {
    if (sev.IsError()) { ioError(sev, true); return; }
  } else {
    if (r->sent >= r->sendTotal) return;
    uint32_t left = r->sendTotal - r->sent, pos = 0, n = 1 + op(2), cnt = 0;
    for (uint32_t i = 0; i < n && left > 0; ++i) { uint32_t k = 1 + op(30); if (k > left) k = left; svec[i].myData = sbuf + pos; svec[i].mySize = k; pos += k; left -= k; ++cnt; }
    for (uint32_t i = 0; i < pos; ++i) sbuf[i] = (uint8_t)((r->sent + i) % theByteMod);
    if (!task.Send(svec, cnt, sev)) { ioError(sev, true); return; }
    checkNotFailed(true);
    if (sev.IsLocked()) return;
    if (sev.IsEmpty()) violation("C17", "empty-event", "a successful operation left its event neither locked nor set");
  }
  uint32_t got = sev.PopBytes();
  r->sent += got;
  SIM_CHECK(r->sent <= r->sendTotal, "C17 C19", "data", "sent more than asked");
  if (r->sent < r->sendTotal) { task.Reschedule(); r->rescheduled = true; }
}
void Sub::plan() {
  if (budget <= 0) return;
  switch (op(7)) {
  case 0: break;
  case 1: --budget; task.Reschedule(); r->rescheduled = true; break;
  case 2: {
    --budget;
    Atomic a;
    static const uint64_t ds[] = {0, 1, 2, 10, 100, 1000, 20000, 2000000000};
    uint64_t d = nowMs() + ds[op(8)];
    uint64_t d2 = MG_TIME_INFINITE;
    if (op(3) == 0) d2 = nowMs() + ds[op(8)];
    task.SetDeadline(d);
    if (d2 != MG_TIME_INFINITE) task.SetDeadline(d2);
    if (d2 < d) d = d2;
    r->deadline = d; r->armed = true;
    break;
  }
  case 3: --budget; { Atomic a; r->selfWoken = true; r->wakeInv = stepNo(); } task.PostWakeup(); break;
  case 4: --budget; sleepNs((uint64_t)(1 + op(1000)) * US); break;
  case 5: if (op(4) == 0) { --budget; close(); } break;
  default: break;
  }
}

// Everything that must have happened to the task has.
bool settled(Rec* r) {
  if (!r->posted || r->closed) return true;
  if (r->closeInv) return false;
  if (r->wakeInv > r->execStart) return false;
  if ((r->armed && r->deadline < nowMs() + 30000) || r->rescheduled) return false;
  if (r->fd >= 0 && r->w->dataMode && r->sub) {
    if (r->sendFailed || r->recvFailed || ioFailing(r)) return false;
    if (r->peerDead) return false;      // Must notice and close.
    if (r->rgot < r->rExpect || r->peerGot < r->sendTotal) return false;
  }
  return true;
}
bool allSettled(World* w) { for (Rec* r : w->recs) if (!settled(r)) return false; return true; }
bool allClosed(World* w) { for (Rec* r : w->recs) if (r->posted || !r->destroyed) return false; return true; }

void describe(World* w, char* b, size_t n) {
  size_t o = 0; b[0] = 0;
  for (Rec* r : w->recs) {
    if (settled(r) || o + 100 >= n) continue;
    o += (size_t)snprintf(b + o, n - o, " [task %d execs %d closeInv %llu wakeInv %llu execStart %llu armed %d resched %d rgot %u/%u peerGot %u/%u peerDead %d]", r->id, r->execs, (unsigned long long)r->closeInv,
      (unsigned long long)r->wakeInv, (unsigned long long)r->execStart, r->armed, r->rescheduled, r->rgot, r->rExpect, r->peerGot, r->sendTotal, r->peerDead);
  }
}

void makeSocket(Sub* s) {
  Rec* r = s->r;
  Addr a = loop4(0);
  int l = peerListen(a);
  int c = -1;
  for (int i = 0; i < 5 && c < 0; ++i) c = peerConnect(a, NEVER);
  if (c < 0) { peerClose(l); return; }
  fdGive(c);
  r->peer = peerAccept(l, NEVER);
  peerClose(l);
  r->hadSocket = true;
  if (op(4) == 0) { s->attachLater = c; return; }
  r->fd = c; r->fdFile = fdFile(c);
}
void runTasks(bool simple, bool restarts) {
  uint64_t mark = allocMark();
  allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_send_eagain, F_eintr, F_epoll_eintr, F_conn_reset, F_uring_late, F_uring_reorder, F_cancel_race, F_send_fail, F_recv_fail});
  g_ioFail = [](uint64_t, bool, int err) { if (err) probe("io_failed"); return true; };
  netInit();
  IOCore* core = new IOCore();
  World* w = new World();
  w->core = core; w->simple = simple; w->dataMode = !simple; w->delays = restarts || !simple;
  uint32_t threads = 1 + choose(K_CFG, 3);
  int ntasks = 1 + (int)choose(K_CFG, simple ? 4 : 3);
  bool late = choose(K_CFG, 3) == 0;
  if (!late) { w->stopped = false; core->Start(threads); }
  std::vector<int> fibers, drivers;
  for (int i = 0; i < ntasks; ++i) {
    Rec* r = new Rec();
    r->id = i; r->w = w;
    w->recs.push_back(r);
    Sub* s = new Sub(w, r);
    r->sub = s; r->hold = IOSubscription::Ptr::Wrap(s);
    s->budget = 1 + (int)op(6);
    if (!simple && op(4) != 0) makeSocket(s);
    if (w->dataMode && r->peer >= 0) {
      r->rExpect = inSize(600); r->sendTotal = inSize(600);
      fibers.push_back(spawn("peer-w", [r, fd = r->peer, total = r->rExpect, sendTotal = r->sendTotal] {
        uint32_t n = total, done = 0; (void)sendTotal;
        uint8_t b[64];
        while (done < n) {
          uint32_t k = 1 + op(64); if (k > n - done) k = n - done;
          for (uint32_t i = 0; i < k; ++i) b[i] = (uint8_t)((done + i) % theByteMod);
          if (peerSend(fd, b, k) < 0) { if (r->peer == fd) r->peerDead = true; break; }
          done += k;
          if (op(3) == 0) sleepNs((uint64_t)(1 + op(100)) * 100 * US);
        }
      }));
      fibers.push_back(spawn("peer-r", [r, fd = r->peer, total = r->rExpect, sendTotal = r->sendTotal] {
        uint32_t done = 0;
        uint8_t b[64];
        for (;;) {
          long k = peerRecv(fd, b, 1 + op(64), NEVER);
          if (r->peer != fd) break;
          if (k <= 0) { r->peerDead = true; break; }
          for (long i = 0; i < k; ++i)
            SIM_CHECK(b[i] == (uint8_t)((done + (uint32_t)i) % theByteMod), "C17 C19", "data", "the peer got a wrong byte at %u", done + (uint32_t)i);
          done += (uint32_t)k;
          (void)total; SIM_CHECK(done <= sendTotal, "C17 C19", "data", "the peer got too many bytes");
          r->peerGot = done;
        }
      }));
    }
    if (op(8) == 0) { probe("close_before_post"); s->close(); }
  }
  int posters = 1 + (int)op(2);
  for (int p = 0; p < posters; ++p)
    drivers.push_back(spawn("poster", [w, p, posters] {
      for (Rec* r : w->recs) {
        if (r->id % posters != p) continue;
        { Atomic a; r->posted = r->usable = true; r->postStep = stepNo(); }
        IOSubscription::Ptr keep = r->hold;
        Sub* s = r->sub;
        if (!s) harnessError("no subscription");
        if (r->fd >= 0) {
          if (op(5) == 0) { IOServerSocket* ss = new IOServerSocket(); ss->mySock = (int)r->fd; s->task.Post(ss, s); }
          else s->task.Post((mg::net::Socket)r->fd, s);
        } else s->task.Post(s);
        // A post alone isn't a reason to be executed.
        if (w->dataMode || op(3) != 0) {
          bool can;
          { Atomic a; can = r->usable; if (can) { r->wakeInv = stepNo(); ++r->wakesActive; } }
          if (can) {
            s->task.PostWakeup();
            Atomic a; --r->wakesActive; r->wakeRet = stepNo();
          }
        }
        if (op(3) == 0) yield();
      }
    }));
  int wakers = (int)op(3);
  for (int k = 0; k < wakers; ++k)
    drivers.push_back(spawn("waker", [w] {
      int n = 1 + (int)op(10);
      while (n-- > 0) {
        Rec* r = w->recs[op((uint32_t)w->recs.size())];
        IOSubscription::Ptr keep;
        Sub* s;
        { Atomic a; keep = r->hold; s = r->sub; if (keep.IsSet() && r->usable) { r->wakeInv = stepNo(); ++r->wakesActive; } else s = nullptr; }
        if (s && keep.IsSet()) {
          if (op(6) == 0) { s->close(); Atomic a; --r->wakesActive; r->wakeRet = stepNo(); }
          else { s->task.PostWakeup(); Atomic a; --r->wakesActive; r->wakeRet = stepNo(); }
        }
        keep.Clear();
        if (op(2)) sleepNs((uint64_t)(1 + op(50)) * (op(2) ? 10 : 1000) * US);
      }
    }));
  auto start = [&] { { Atomic a; w->stopped = false; } core->Start(threads); };
  auto stop = [&] {
    uint64_t t0 = now();
    core->Stop();
    Atomic a;
    SIM_CHECK(w->executing == 0, "C18", "stop-running", "the core is stopped, but %d tasks are being executed", w->executing);
    w->stopped = true;
    SIM_CHECK(now() - t0 < 15 * SEC + 2 * busyTime() + injectedDelay(), "C18", "slow-stop", "the stop took %llu ms", (unsigned long long)((now() - t0) / MS));
  };
  if (late) { if (op(2)) sleepNs((uint64_t)op(20) * MS); start(); }
  if (restarts) {
    int n = 1 + (int)op(3);
    while (n-- > 0) {
      if (op(3)) sleepNs((uint64_t)(1 + op(100)) * (op(2) ? 10 : 1000) * US);
      stage("stopping the core");
      stop();
      probe("core_restart");
      if (op(2)) sleepNs((uint64_t)op(30) * MS);
      start();
    }
  }
  for (int f : drivers) join(f);
  stage("tasks must be executed for their reasons");
  bool ok = eventually([&] { return allSettled(w); });
  if (!ok) {
    char b[1500];
    describe(w, b, sizeof(b));
    violation("C17", "lost-reason", "a task isn't executed although it has a reason:%s", b);
  }
  if (op(3) == 0) {
    // The number of tasks is known exactly now.
    uint32_t left = 0;
    { Atomic a; for (Rec* r : w->recs) if (r->posted) ++left; }
    if (left > 0) {
      uint64_t t0 = nowMs(); uint32_t lim = op(2) ? 0 : op(100);
      uint32_t c = core->WaitEmpty(mg::box::TimeDuration(lim));
      (void)t0;
      (void)left;
      if (c == 0) { Atomic a; bool any = false; for (Rec* r : w->recs) if (r->posted) any = true; SIM_CHECK(!any, "C18", "wait-empty", "a task remains, WaitEmpty() says none"); }
    }
  }
  if (restarts && op(2)) { stage("stopping the core with idle tasks"); stop(); if (op(2)) sleepNs(op(100) * MS); start(); }
  stage("closing");
  { Atomic a; w->ending = true; }
  for (Rec* r : w->recs) {
    IOSubscription::Ptr keep;
    Sub* s;
    { Atomic a; keep = r->hold; s = r->usable ? r->sub : nullptr; }
    if (s && keep.IsSet()) s->close();
    keep.Clear();
  }
  if (op(2) == 0) {
    uint32_t c = core->WaitEmpty();
    SIM_CHECK(c == 0, "C18", "wait-empty", "endless WaitEmpty() returned %u", c);
    Atomic a;
    for (Rec* r : w->recs) SIM_CHECK(!r->posted, "C18", "wait-empty", "WaitEmpty() returned, but task %d isn't closed", r->id);
  }
  stage("peers end");
  for (Rec* r : w->recs) if (r->peer >= 0) { int fd = r->peer; r->peer = -1; peerClose(fd); }
  for (int f : fibers) join(f);
  ok = eventually([&] { return allClosed(w); });
  SIM_CHECK(ok, "C17", "not-closed", "a closed task never got its close event");
  for (Rec* r : w->recs) SIM_CHECK(r->closes == r->lives, "C17", "close-count", "task %d has %d close events in %d lives", r->id, r->closes, r->lives);
  stage("core destruction");
  if (op(2)) stop();
  { Atomic a; w->stopped = true; }
  delete core;
  for (Rec* r : w->recs) delete r;
  w->recs.clear();
  std::vector<int>().swap(fibers); std::vector<int>().swap(drivers);
  std::vector<Rec*>().swap(w->recs);
  delete w;
  SIM_CHECK(openFdCount() == 0, "C18", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  size_t sz; void* pc;
  uint64_t n = liveSince(mark, &sz, &pc);
  SIM_CHECK(n == 0, "C16 C18", "leak", "%llu memory blocks leaked, the first is of %zu bytes, allocated at %p", (unsigned long long)n, sz, pc);
}

// Starts and stops of a core with idle tasks.
void runStops() {
  struct Idle : IOSubscription {
    Idle(IOCore& c) : task(c) {}
    void OnEvent(const IOArgs&) override {
      if (task.IsClosed()) { Atomic a; ++*closed; return; }
      ++execs;
      if (dl) task.SetDeadline(nowMs() + dl);
    }
    IOTask task; uint64_t dl = 0; int execs = 0; int* closed = nullptr;
  };
  uint64_t mark = allocMark();
  allowFaults({F_eintr, F_epoll_eintr});
  netInit();
  uint32_t threads = 1 + choose(K_CFG, 2);
  int n = 1 + (int)choose(K_CFG, 2), closed = 0;
  if (op(3) == 0) {
    // A core can be destroyed without having worked much or at all.
    IOCore* c = new IOCore();
    if (op(2)) c->Start(threads);
    if (op(2)) c->Stop();
    if (op(4) == 0) c->Start(threads);
    probe("short_life");
    delete c;
  }
  IOCore* core = new IOCore();
  std::vector<IOSubscription::Ptr> hold; std::vector<Idle*> tasks;
  for (int i = 0; i < n; ++i) {
    Idle* t = new Idle(*core);
    static const uint64_t ds[] = {0, 2000000000, 1, 2000000000};
    t->dl = ds[op(4)]; t->closed = &closed;
    hold.push_back(IOSubscription::Ptr::Wrap(t)); tasks.push_back(t);
  }
  std::vector<int> fs;
  fs.push_back(spawn("poster", [&] {
    for (Idle* t : tasks) { t->task.Post(t); if (op(4)) t->task.PostWakeup(); if (op(2)) yield(); }
    int k = (int)op(4);
    while (k-- > 0) { tasks[op((uint32_t)n)]->task.PostWakeup(); if (op(2)) sleepNs(op(3) * MS); }
  }));
  if (op(3) == 0) fs.push_back(spawn("starter", [&] {
    // It is allowed to start and stop the core from any thread.
    for (int k = 1 + (int)op(3); k > 0; --k) {
      if (op(3)) core->Start(1 + op(3)); else core->Stop();
      if (op(2)) yield();
    }
    probe("start_race");
  }));
  int rounds = 2 + (int)op(4);
  for (int i = 0; i < rounds; ++i) {
    core->Start(threads);
    if (op(2)) sleepNs(op(3) * MS);
    stage("stop");
    uint64_t t0 = now();
    core->Stop();
    uint64_t lim = 40 * SEC + 2 * busyTime() + injectedDelay();
    SIM_CHECK(now() - t0 < lim, "C18", "slow-stop", "the stop took %llu ms", (unsigned long long)((now() - t0) / MS));
    if (op(4) == 0) core->Stop();
  }
  for (int f : fs) join(f);
  for (Idle* t : tasks) t->task.PostClose();
  core->Start(threads);
  SIM_CHECK(core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() fails");
  { Atomic a; SIM_CHECK(closed == n, "C18", "wait-empty", "%d tasks of %d are closed", closed, n); }
  delete core;
  { Atomic a; std::vector<IOSubscription::Ptr>().swap(hold); std::vector<Idle*>().swap(tasks); std::vector<int>().swap(fs); }
  SIM_CHECK(openFdCount() == 0, "C18", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  uint64_t l = liveSince(mark, nullptr, nullptr);
  SIM_CHECK(l == 0, "C16 C18", "leak", "%llu memory blocks leaked", (unsigned long long)l);
}
}

// Deadlines of days and years ahead.
WORKLOAD(wn_task_far, "C17", 1) {
  uint64_t mark = allocMark();
  timeCap(100000000);
  allowFaults({F_eintr, F_epoll_eintr});
  netInit();
  struct Far : IOSubscription {
    Far(IOCore& c) : task(c) {}
    void OnEvent(const IOArgs&) override {
      Atomic a;
      uint64_t ms = nowMs(); bool e = task.IsExpired();
      SIM_CHECK(!closed, "C17", "after-close", "a closed task is executed");
      if (task.IsClosed()) { closed = true; return; }
      SIM_CHECK(!e || ms >= dl, "C17", "expired-early", "the task with the deadline %llu ms is expired at %llu ms", (unsigned long long)dl, (unsigned long long)ms);
      if (armed) SIM_CHECK(e && ms < dl + 15000 + (2 * busyTime() + injectedDelay()) / MS, "C17", "late", "the task with the deadline %llu ms is executed at %llu ms, expired %d", (unsigned long long)dl, (unsigned long long)ms, e);
      if (armed) { ran = true; return; }
      armed = true;
      static const uint64_t far[] = {2147483646, 2147483647, 2147483648ull, 3000000000ull, 4294967295ull, 4294967296ull, 4294968000ull, 8589934700ull, 100, 86400000};
      static const uint64_t never[] = {UINT64_MAX - 1, UINT64_MAX / 2, UINT64_MAX - 2000000, INT64_MAX, 9223372036854ull, 4611686018427387904ull};
      dl = op(4) == 0 ? never[op(6)] : ms + far[op(10)];
      task.SetDeadline(dl);
    }
    IOTask task; uint64_t dl = 0; bool armed = false, ran = false, closed = false;
  };
  IOCore* core = new IOCore();
  core->Start(1 + choose(K_CFG, 2));
  int n = 1 + (int)choose(K_CFG, 3);
  std::vector<IOSubscription::Ptr> hold; std::vector<Far*> ts;
  for (int i = 0; i < n; ++i) {
    Far* t = new Far(*core);
    hold.push_back(IOSubscription::Ptr::Wrap(t)); ts.push_back(t);
    t->task.Post(t); t->task.PostWakeup();
  }
  bool ok = eventually([&] { for (Far* t : ts) if (!t->armed) return false; return true; });
  SIM_CHECK(ok, "C17", "lost-reason", "a woken up task isn't executed");
  stage("sleeping for long");
  uint64_t last = 0;
  for (Far* t : ts) if (t->dl < 1000000000000ull && t->dl > last) last = t->dl;
  while (nowMs() < last) sleepNs((last - nowMs()) * MS);
  ok = eventually([&] { for (Far* t : ts) if (t->dl <= last && !t->ran) return false; return true; });
  SIM_CHECK(ok, "C17", "lost-reason", "a task isn't executed after its deadline");
  for (Far* t : ts) { SIM_CHECK(t->ran == (t->dl <= last) , "C17", "expired-early", "a task ran too early"); t->task.PostClose(); }
  SIM_CHECK(core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() fails");
  for (Far* t : ts) SIM_CHECK(t->closed, "C17", "not-closed", "a task isn't closed");
  delete core;
  { Atomic a; std::vector<IOSubscription::Ptr>().swap(hold); std::vector<Far*>().swap(ts); }
  uint64_t l = liveSince(mark, nullptr, nullptr);
  SIM_CHECK(l == 0, "C16 C18", "leak", "%llu memory blocks leaked", (unsigned long long)l);
}
WORKLOAD(wn_core_stop, "C18 C29", 2) { runStops(); }
WORKLOAD(wn_task_plain, "C17 C18", 3) { runTasks(true, false); }
WORKLOAD(wn_task_restart, "C17 C18 C29", 3) { runTasks(true, true); }
WORKLOAD(wn_task_sock, "C17 C18 C29", 4) { runTasks(false, op(2) == 1); }
