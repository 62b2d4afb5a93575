// Progress of I/O tasks while others keep the workers busy without an end.
#include "knet.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/box/IOVec.h"
#include "mg/box/Time.h"
#include <cerrno>
#include <cstring>
#include <vector>

using namespace sim;
using namespace mg::aio;

namespace {

struct Fair;
struct Load : IOSubscription {
  Load(IOCore& c, Fair* f) : task(c), f(f) {}
  void OnEvent(const IOArgs&) override;
  IOTask task; Fair* f; bool byDeadline = false; bool work = false;
};
// One who needs to be executed for a certain reason several times.
struct Probe : IOSubscription {
  Probe(IOCore& c, Fair* f) : task(c), f(f) {}
  void OnEvent(const IOArgs&) override;
  IOTask task; Fair* f;
  enum Kind { K_WAKE, K_DEADLINE, K_RECV, K_SEND, K_CLOSE } kind = K_WAKE;
  int id = 0;
  int execs = 0;
  uint64_t deadline = 0;
  int rounds = 0;
  uint32_t got = 0, want = 0;     // Received, or sent.
  bool closed = false;
  int fd = -1, peer = -1;
  IOEvent ev; mg::box::IOVec vec; uint8_t buf[256];
};
struct Fair {
  IOCore* core = nullptr;
  std::vector<Load*> loads; std::vector<Probe*> probes;
  uint64_t loadExecs = 0, limit = 0, hard = 0;
  bool stop = false;
  int closedLoads = 0;
};

void Load::OnEvent(const IOArgs&) {
  if (task.IsClosed()) { Atomic a; ++f->closedLoads; return; }
  bool stop, off, slow;
  {
    Atomic a;
    stop = f->stop; ++f->loadExecs;
    off = f->loadExecs == f->limit; slow = f->loadExecs > f->limit;
    if (!stop && f->loadExecs > f->hard) {
      char b[600]; size_t o = 0; b[0] = 0;
      for (Probe* p : f->probes) if (o + 80 < sizeof(b)) o += (size_t)snprintf(b + o, sizeof(b) - o, " [task %d kind %d execs %d rounds left %d bytes %u/%u closed %d]", p->id, p->kind, p->execs, p->rounds, p->got, p->want, p->closed);
      violation("C30 C17", "starved", "%llu executions of busy tasks, the last %llu of them with no faults, others make no progress:%s", (unsigned long long)f->loadExecs, (unsigned long long)(f->hard - f->limit), b);
    }
  }
  if (off) { probe("load_faults_off"); faultsOff(); }
  // The others need some time too: for the network and the sleeps of the harness.
  if (slow) sleepNs(20 * MS);
  else if (work) sleepNs((uint64_t)(1 + op(20)) * 10 * US);
  if (stop) { task.PostClose(); return; }
  if (byDeadline) task.SetDeadline(mg::box::GetMilliseconds());
  else if (op(2)) task.Reschedule();
  else task.PostWakeup();
}
void Probe::OnEvent(const IOArgs& args) {
  if (task.IsClosed()) { Atomic a; closed = true; return; }
  { Atomic a; ++execs; }
  mg::box::Error::Ptr err;
  if (!task.ProcessArgs(args, err)) { task.PostClose(); return; }
  switch (kind) {
  case K_WAKE: case K_CLOSE: return;
  case K_DEADLINE: {
    Atomic a;
    uint64_t t = nowMs();
    SIM_CHECK(!deadline || t >= deadline || execs == 1, "C17", "early", "task %d is executed at %llu ms, its deadline is %llu ms", id, (unsigned long long)t, (unsigned long long)deadline);
    if (deadline && execs > 1) --rounds;
    deadline = 0;
    if (rounds > 0) { deadline = t + op(3); task.SetDeadline(deadline); }
    return;
  }
  case K_RECV: {
    if (ev.IsLocked()) return;
    uint32_t n = 0;
    if (ev.IsEmpty()) {
      vec.myData = buf; vec.mySize = 1 + op(100);
      if (!task.Recv(&vec, 1, ev)) { task.PostClose(); return; }
      if (ev.IsLocked()) return;
    }
    if (ev.IsError()) { (void)ev.PopError(); task.PostClose(); return; }
    n = ev.PopBytes();
    if (n == 0) { task.PostClose(); return; }
    { Atomic a; got += n; }
    task.Reschedule();
    return;
  }
  case K_SEND: {
    if (ev.IsLocked()) return;
    if (ev.IsEmpty()) {
      if (got >= want) return;
      vec.myData = buf; vec.mySize = std::min(want - got, 1 + op(200));
      if (!task.Send(&vec, 1, ev)) { task.PostClose(); return; }
      if (ev.IsLocked()) return;
    }
    if (ev.IsError()) { (void)ev.PopError(); task.PostClose(); return; }
    { Atomic a; got += ev.PopBytes(); }
    task.Reschedule();
    return;
  }
  }
}
void makeSocket(Probe* p) {
  Addr a = loop4(0);
  int l = peerListen(a), c = -1;
  for (int i = 0; i < 5 && c < 0; ++i) c = peerConnect(a, NEVER);
  if (c < 0) { peerClose(l); p->kind = Probe::K_WAKE; return; }
  fdGive(c);
  p->fd = c;
  p->peer = peerAccept(l, NEVER);
  peerClose(l);
}

void run() {
  uint64_t mark = allocMark();
  allowFaults({F_net_delay, F_recv_split, F_short_send, F_send_eagain, F_eintr, F_epoll_eintr, F_uring_late, F_uring_reorder});
  netInit();
  IOCore* core = new IOCore();
  Fair* f = new Fair();
  f->core = core;
  uint32_t threads = 1 + choose(K_CFG, 3);
  int nload = 1 + (int)choose(K_CFG, 4), nprobe = 1 + (int)choose(K_CFG, 4);
  f->limit = 300; f->hard = 6000;
  std::vector<IOSubscription::Ptr> hold;
  for (int i = 0; i < nload; ++i) {
    Load* l = new Load(*core, f);
    l->byDeadline = op(3) == 0; l->work = op(3) == 0;
    f->loads.push_back(l); hold.push_back(IOSubscription::Ptr::Wrap(l));
  }
  std::vector<int> fibers;
  for (int i = 0; i < nprobe; ++i) {
    Probe* p = new Probe(*core, f);
    p->id = i; p->kind = (Probe::Kind)op(5); memset(p->buf, 0x5A, sizeof(p->buf));
    f->probes.push_back(p); hold.push_back(IOSubscription::Ptr::Wrap(p));
    if (p->kind == Probe::K_RECV || p->kind == Probe::K_SEND) makeSocket(p);
    p->rounds = 1 + (int)op(4);
    if (p->fd >= 0) p->want = 1 + op(300);
  }
  bool late = op(4) == 0;
  if (!late) core->Start(threads);
  for (Load* l : f->loads) { l->task.Post(l); l->task.PostWakeup(); }
  for (Probe* p : f->probes) {
    if (p->fd >= 0) p->task.Post((mg::net::Socket)p->fd, p);
    else p->task.Post(p);
    p->task.PostWakeup();
  }
  if (late) core->Start(threads);
  stage("progress under load");
  // Those who give reasons. Nobody waits with a time limit here: the load counts its executions.
  auto wait = [](std::function<bool()> c) { while (!waitUntil(c, NEVER)); };
  for (Probe* p : f->probes) {
    switch (p->kind) {
    case Probe::K_WAKE:
      fibers.push_back(spawn("waker", [p, wait] {
        while (p->rounds > 0) {
          int was;
          { Atomic a; was = p->execs; }
          p->task.PostWakeup();
          wait([&] { return p->execs > was; });
          Atomic a; --p->rounds;
        }
      }));
      break;
    case Probe::K_CLOSE:
      fibers.push_back(spawn("closer", [p] { if (op(2)) sleepNs(op(10) * 100 * US); p->task.PostClose(); }));
      break;
    case Probe::K_RECV:
      fibers.push_back(spawn("sender", [p, wait] {
        uint8_t b[64]; memset(b, 1, sizeof(b));
        uint32_t done = 0;
        while (done < p->want) {
          uint32_t k = std::min(p->want - done, 1 + op(64));
          if (peerSend(p->peer, b, k) < 0) break;
          done += k;
          if (op(4) == 0) wait([&] { return p->got >= done || p->closed; });
        }
      }));
      break;
    case Probe::K_SEND:
      fibers.push_back(spawn("reader", [p] {
        uint8_t b[64]; uint32_t done = 0;
        while (done < p->want) {
          if (op(8) == 0) sleepNs((uint64_t)op(50) * 100 * US);
          long k = peerRecv(p->peer, b, 1 + op(64), NEVER);
          if (k <= 0) break;
          done += (uint32_t)k;
        }
      }));
      break;
    case Probe::K_DEADLINE: break;
    }
  }
  wait([&] {
    for (Probe* p : f->probes) {
      if (p->closed) continue;
      switch (p->kind) {
      case Probe::K_WAKE: case Probe::K_DEADLINE: if (p->rounds > 0) return false; break;
      case Probe::K_CLOSE: return false;
      case Probe::K_RECV: case Probe::K_SEND: if (p->got < p->want) return false; break;
      }
    }
    return true;
  });
  for (int x : fibers) join(x);
  stage("closing");
  { Atomic a; f->stop = true; }
  for (Probe* p : f->probes) if (p->kind != Probe::K_CLOSE) p->task.PostClose();
  SIM_CHECK(core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() fails");
  { Atomic a; SIM_CHECK(f->closedLoads == nload, "C18 C17", "wait-empty", "%d busy tasks of %d are closed", f->closedLoads, nload); }
  for (Probe* p : f->probes) if (p->peer >= 0) peerClose(p->peer);
  delete core;
  probe("fair_done");
  { Atomic a; std::vector<IOSubscription::Ptr>().swap(hold); std::vector<int>().swap(fibers); delete f; }
  SIM_CHECK(openFdCount() == 0, "C18", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  size_t sz; void* pc;
  uint64_t n = liveSince(mark, &sz, &pc);
  SIM_CHECK(n == 0, "C16 C18", "leak", "%llu memory blocks leaked, the first is of %zu bytes, allocated at %p", (unsigned long long)n, sz, pc);
}
}
WORKLOAD(wn_fair, "C30 C17", 2) { run(); }
