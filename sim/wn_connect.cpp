// All the ways to connect an asynchronous socket to all kinds of endpoints.
#include "an_net.h"
#include "an_ssl.h"
#include "mg/aio/SSLSocket.h"
#include "mg/aio/IOTask.h"
#include "mg/net/DomainToIP.h"
#include <cstring>
#include <netdb.h>

using namespace sim;
using namespace mg::aio;

namespace {
struct Target {
  Conn* c = nullptr; int id = 0;
  int lfd = -1; Peer* peer = nullptr; uint8_t salt = 0;
  Addr addr;                      // Where it must connect.
  bool ok = false;                // The endpoint is good.
  bool ssl = false;
  int mode = 0;                   // Why not.
  bool byName = false; uint64_t dnsMs = 0; bool dnsBad = false;
  bool never = false;             // An endless delay.
  uint64_t attemptMs = 0;         // The longest time of the kernel's attempt.
  uint32_t accepted = 0;
  std::string name;
};
struct Env { World w; std::vector<Target*> ts; bool lossy = false; uint64_t dnsTotalMs = 0; };
TCPSocketParams g_params;
uint16_t portOf(const Addr& a) { return a.s.ss_family == AF_INET ? ntohs(((sockaddr_in*)&a.s)->sin_port) : ntohs(((sockaddr_in6*)&a.s)->sin6_port); }
void setPortOf(Addr& a, uint16_t p) { if (a.s.ss_family == AF_INET) ((sockaddr_in*)&a.s)->sin_port = htons(p); else ((sockaddr_in6*)&a.s)->sin6_port = htons(p); }

void makeTarget(Env* e, Target* t) {
  Conn* c = t->c;
  c->reset();
  c->saltOut = (uint8_t)(t->id << 4 | 1); t->salt = c->saltOut;
  c->rx.reset(t->salt ^ 2);
  c->maxLen = 300; c->budget = (int)op(4);
  t->byName = op(2);
  bool v6 = t->byName && op(3) == 0;
  Addr good = v6 ? addr6((uint16_t)(0x10 + t->id), 0) : addr4(10, 0, 0, (uint8_t)(1 + t->id), 0);
  static const int modes[] = {IP_NORMAL, IP_NORMAL, IP_NORMAL, IP_REFUSE, IP_TIMEOUT, IP_UNREACH, IP_BLACKHOLE, IP_UNREACH_NOW};
  t->mode = modes[op(8)];
  uint16_t port;
  if (t->mode == IP_NORMAL && op(8)) {
    t->lfd = peerListen(good);
    port = portOf(good);
    t->ok = true;
  } else {
    // Nobody listens: refused.
    port = (uint16_t)(2000 + t->id);
    setPortOf(good, port);
    if (t->mode != IP_NORMAL) ipMode(good, (IpMode)t->mode);
    t->attemptMs = t->mode == IP_BLACKHOLE ? 20000 : t->mode == IP_TIMEOUT ? 31000 : 0;
  }
  t->addr = good;
  char b[80];
  c->family = 0;
  if (t->byName) {
    snprintf(b, sizeof(b), "host%d.test", t->id);
    t->name = b;
    DnsHost h; h.name = b; h.rc = 0; h.sysErr = 0; h.extraFamilies = op(4) == 0;
    h.delay = op(3) ? 0 : (uint64_t)(1 + op(3000)) * MS;
    t->dnsMs = h.delay / MS;
    // The first suitable address counts. The others lead nowhere good.
    Addr other4 = addr4(10, 9, 9, (uint8_t)t->id, port), other6 = addr6((uint16_t)(0x900 + t->id), port);
    ipMode(other4, IP_REFUSE); ipMode(other6, IP_REFUSE);
    uint32_t k = op(10);
    if (k == 0) { static const int rcs[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY}; h.rc = rcs[op(5)]; h.sysErr = EMFILE; t->dnsBad = true; }
    else if (k == 1) { // No address of the asked family.
      c->family = v6 ? AF_INET : AF_INET6;
      h.addrs.push_back(good); t->dnsBad = true;
    } else {
      bool ask = op(2);
      if (ask) {
        c->family = v6 ? AF_INET6 : AF_INET;
        if (op(2)) h.addrs.push_back(v6 ? other4 : other6);
      }
      h.addrs.push_back(good);
      if (op(3) == 0) h.addrs.push_back(good);
      if (op(2)) h.addrs.push_back(other4);
      if (op(2)) h.addrs.push_back(other6);
    }
    for (Addr& a : h.addrs) setPortOf(a, 0);
    if (op(16) == 0) { t->dnsBad = true; h.name += "x"; }           // Unknown.
    dnsAdd(h);
    Atomic a;
    e->dnsTotalMs += t->dnsMs;
    snprintf(b, sizeof(b), "host%d.test:%u", t->id, port);
  } else {
    if (op(4) == 0) c->family = AF_INET;                              // Means nothing here.
    snprintf(b, sizeof(b), "10.0.0.%d:%u", 1 + t->id, port);
  }
  c->endpoint = b;
  if (t->dnsBad) t->ok = false;
  c->neverConnect = !t->ok;
  c->failExpected = !t->ok;
}
TCPSocketConnectParams makeParams(Env* e, Target* t) {
  Conn* c = t->c;
  TCPSocketConnectParams p;
  p.myEndpoint = c->endpoint;
  p.myAddrFamily = (mg::net::SockAddrFamily)c->family;
  uint64_t delay = 0, now = nowMs();
  switch (op(6)) {
  case 0: delay = 1 + op(200); p.myDelay = mg::box::TimeLimit(mg::box::TimeDuration(delay)); break;
  case 1: delay = 1 + op(5000); p.myDelay = mg::box::TimeLimit(mg::box::TimePoint(now + delay)); break;
  case 2: p.myDelay = mg::box::TimeLimit(mg::box::TimeDuration(0)); break;
  case 3: if (op(6) == 0) { t->never = true; c->neverConnect = true; if (op(2)) p.myDelay = mg::box::TimeLimit(mg::box::theTimePointInf); else p.myDelay = mg::box::TimeLimit(mg::box::theTimeDurationInf); } break;
  }
  c->delayMs = (uint32_t)delay;
  c->minConnectMs = now + delay;
  traceOp("socket %d: connect to %s at %llu ms, type %d", t->id, c->endpoint.c_str(), (unsigned long long)c->minConnectMs, (int)p.myDelay.myType);
  if (op(4) == 0) {
    mg::box::Error::Ptr err;
    mg::net::Socket s = SocketCreate((mg::net::SockAddrFamily)t->addr.s.ss_family, mg::net::TRANSPORT_PROT_TCP, err);
    if (s != mg::net::theInvalidSocket) { p.mySocket = s; c->fd = s; c->file = fdFile(s); probe("own_socket"); }
    else SIM_CHECK(err.IsSet(), "C21", "no-error", "socket creation failed without an error");
  }
  return p;
}
bool settled(Target* t) {
  Conn* c = t->c;
  if (!c->posted || c->closed) return true;
  if (c->closeAsked) return false;
  if (t->never) return true;
  if (c->errors || c->failFile) return false;
  if (c->isTask && !c->wantConnect) return true;
  return c->connected;
}
void run(bool lossy) {
  warmResolver();
  sslSeed(choose(K_CFG, 65536));
  sslWarmThreads(14);
  uint64_t mark = allocMark();
  if (lossy) allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition,
    F_conn_reset, F_conn_refused, F_conn_unreach, F_conn_timeout, F_conn_immediate_err, F_socket_emfile, F_sockopt_fail, F_send_fail, F_recv_fail, F_dns_delay, F_dns_fail});
  else allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition, F_dns_delay});
  Env* e = new Env();
  World& w = e->w;
  e->lossy = w.lossy = lossy; w.chaos = true;
  bool closers = choose(K_CFG, 2);
  if (lossy) w.failIo();
  netInit();
  w.core = new IOCore();
  w.core->Start(1 + choose(K_CFG, 3));
  int n = 1 + (int)choose(K_CFG, 5);
  std::vector<int> fibers, actors;
  // An SSL socket which isn't asked to encrypt is a usual socket.
  SslModel* ssl = choose(K_CFG, 2) ? new SslModel() : nullptr;
  if (ssl) ssl->make(false);
  for (int i = 0; i < n; ++i) {
    Target* t = new Target();
    t->id = i;
    t->c = new Conn(&w, i);
    t->ssl = ssl && op(2);
    if (t->ssl) { t->c->sock = new SSLSocket(*w.core); probe("ssl_socket"); }
    else t->c->sock = new TCPSocket(*w.core);
    { Atomic a; e->ts.push_back(t); w.conns.push_back(t->c); }
    makeTarget(e, t);
  }
  for (Target* t : e->ts) {
    if (t->lfd >= 0) fibers.push_back(spawn("peer", [e, t] {
      while (true) {
        int fd = peerAccept(t->lfd, 5000 * MS);
        if (fd < 0) { Atomic a; if (e->w.ending && (t->c->closed || !t->c->posted)) break; continue; }
        { Atomic a; ++t->accepted; }
        SIM_CHECK(t->accepted == 1, "C21", "connect-twice", "one connect came %u times", t->accepted);
        SIM_CHECK(nowMs() >= t->c->minConnectMs, "C21", "early-connect", "socket %d: connected %llu ms before its delay has passed", t->id, (unsigned long long)(t->c->minConnectMs - nowMs()));
        Peer* p = new Peer(t->id, t->salt, t->salt ^ 2);
        p->fd = fd; p->plan = PEER_PASSIVE; p->frames = op(4); p->maxLen = 300;
        { Atomic a; t->peer = p; }
        p->run(&e->w);
      }
    }));
    Conn* c = t->c; TCPSocketIFace* s = c->sock;
    if (t->ssl) {
      SSLSocketParams p; p.mySSL = ssl->ctx.GetPointer(); p.myDoEncrypt = false;
      if (op(2)) p.myHostName = "host.name";
      ((SSLSocket*)s)->Open(p);
    } else ((TCPSocket*)s)->Open(g_params);
    if (op(4) == 0) c->sendFrame(5, false);
    c->postMs = nowMs(); c->posted = true;
    int life = c->lives;
    if (op(3)) {
      TCPSocketConnectParams p = makeParams(e, t);
      s->PostConnect(p, c);
    } else {
      c->isTask = true; c->wantConnect = true;
      c->params = [e, t] { uint64_t was = nowMs(); auto p = makeParams(e, t); { Atomic a; t->c->postMs = was; } return p; };
      s->PostTask(c);
    }
    bool wake = false;
    { Atomic a; if (c->lives == life) { c->blocked = false; wake = c->isTask; if (wake) ++c->active; } }
    if (wake) { c->wakeup(); c->leave(); }
    if (op(2)) sleepNs((uint64_t)op(3000) * US);
  }
  int nactors = (int)op(3);
  for (int k = 0; k < nactors; ++k)
    actors.push_back(spawn("actor", [e, k, closers] {
      World& w = e->w;
      int m = 1 + (int)op(10);
      while (m-- > 0) {
        Conn* c; { Atomic a; c = w.conns[op((uint32_t)w.conns.size())]; }
        if (c->enter()) {
          switch (op(closers ? 5 : 4)) {
          case 0: c->wakeup(); break;
          case 1: case 2: c->sendFrame(k, false); break;
          case 3: c->recv(false); break;
          case 4: c->close(k, false); probe("close_connecting"); break;
          }
          c->leave();
        }
        if (op(2)) sleepNs((uint64_t)(1 + op(50)) << op(20) << 6);
      }
      sslThreadEnd();
    }));
  for (int f : actors) join(f);
  stage("every connect must end");
  { Atomic a; w.draining = true; }
  for (Target* t : e->ts) if (t->c->isTask && t->c->enter()) { t->c->wakeup(); t->c->leave(); }
  bool ok = eventually([&] { for (Target* t : e->ts) if (!settled(t)) return false; return true; });
  if (!ok) for (Target* t : e->ts) if (!settled(t)) violation("C21 C20", "no-outcome", "a connect never ends: %s %s", t->c->state(), t->c->endpoint.c_str());
  for (Target* t : e->ts) {
    Conn* c = t->c;
    Atomic a;
    if (c->isTask && !c->connectCalled) continue;
    if (t->ok && !t->never && !lossy && !c->closeAsked && !(c->shutAsked && c->errors))
      SIM_CHECK(c->connected && !c->errors, "C21", "no-connect", "socket %d didn't connect to %s: %s", t->id, c->endpoint.c_str(), c->state());
    if (!t->ok && !t->never && !c->closeAsked) {
      SIM_CHECK(c->errors && c->closed, "C21", "no-error", "socket %d: no error about %s: %s", t->id, c->endpoint.c_str(), c->state());
      probe(t->dnsBad ? "dns_bad" : "bad_endpoint");
      // A failure before the attempt is a failure of the connect for sure.
      if (!c->shutAsked && (t->dnsBad || (t->mode == IP_UNREACH_NOW && !lossy)))
        SIM_CHECK(c->connErrors == 1, "C21 C20", "no-connect-error", "socket %d: OnConnectError isn't called about %s: %s", t->id, c->endpoint.c_str(), c->state());
    }
    if (t->never) probe("endless_delay");
    // In time, when nothing but the workload slows it down.
    if (!t->never && (c->connected || c->errors) && !lossy) {
      uint64_t at = c->connected ? c->connectMs : c->errorMs;
      uint64_t bound = c->postMs + c->delayMs + t->attemptMs + (t->byName ? e->dnsTotalMs : 0) + 4 * g_net.latency * (1 + g_net.jitter) / MS + (2 * busyTime() + injectedDelay()) / MS + 300;
      SIM_CHECK(at <= bound, "C21", "slow", "socket %d: the outcome took %llu ms, the delay is %u, names %llu, the attempt up to %llu", t->id, (unsigned long long)(at - c->postMs), c->delayMs,
        (unsigned long long)(t->byName ? e->dnsTotalMs : 0), (unsigned long long)t->attemptMs);
      probe("timed");
    }
  }
  if (op(2)) {
    // What was posted before is delivered.
    auto done = [&] { for (Target* t : e->ts) { Conn* c = t->c; if (!lossy && c->connected && !c->closed && !c->closeAsked && (!t->peer || t->peer->rx.total != c->postedBytes || c->onSendBytes != c->postedBytes)) return false; } return true; };
    if (!eventually(done)) violation("C19 C21", "not-delivered", "data posted around a connect isn't delivered");
  }
  stage("closing");
  { Atomic a; w.ending = true; for (Conn* c : w.conns) c->failExpected = true; }
  for (Conn* c : w.conns) {
    bool d = false;
    { Atomic a; if (!c->deleted) d = c->deleted = true; }
    if (d) c->del();
  }
  auto gone = [&] { for (Conn* c : w.conns) if (c->posted && !c->closed) return false; return true; };
  if (!eventually(gone)) for (Conn* c : w.conns) if (c->posted && !c->closed) violation("C22 C21", "not-closed", "a closed socket never got its close event: %s", c->state());
  for (int f : fibers) join(f);
  SIM_CHECK(w.core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() failed");
  w.core->Stop();
  w.dead = true;
  delete w.core;
  // Cancelled resolutions end later.
  eventually([&] { return dnsLiveLists() == 0 && openFdCount() == 0; });
  for (Target* t : e->ts) {
    if (t->lfd >= 0) peerClose(t->lfd);
    if (t->peer) { if (t->peer->fd >= 0) peerClose(t->peer->fd); delete t->peer; }
  }
  for (Conn* c : w.conns) { c->freeHeld(); delete c; }
  for (void* p : w.held) free(p);
  for (Target* t : e->ts) delete t;
  delete e;
  delete ssl;
  sslThreadEnd();
  std::vector<int>().swap(fibers); std::vector<int>().swap(actors);
  SIM_CHECK(openFdCount() == 0, "C21 C22", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  flushResolver();
  SIM_CHECK(dnsLiveLists() == 0, "C21 C25", "dns-leak", "an address list isn't freed");
  dnsClear();
  checkLeaks(mark, "C21 C22 C25");
}
}

WORKLOAD(wn_connect, "C21 C20 C25 C29", 4) { run(false); }
WORKLOAD(wn_connect_lossy, "C21 C22 C20", 3) { run(true); }
