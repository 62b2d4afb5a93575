// Workloads over asynchronous TCP sockets.
#include "an_net.h"
#include <cstring>

using namespace sim;
using namespace mg::aio;

namespace {

struct Link {
  World* w; Conn* c; int id;
  Conn* other = nullptr; bool pair = false;
  std::vector<int> lfds; std::vector<Addr> addrs; std::vector<Peer*> peers; std::vector<uint8_t> salts;
  std::vector<int> plans;
  Peer* last() { return peers.empty() ? nullptr : peers.back(); }
  size_t peerLife = 0;
  // Of the current life.
  Peer* current() { return !peers.empty() && peerLife + 1 == lfds.size() ? peers.back() : nullptr; }
};
struct Env {
  World w;
  std::vector<Link*> links;
  bool clean, pair, empties = false, bcast = false; uint32_t maxLen = 0;
};
TCPSocketParams g_params;

void newListener(Link* l) {
  Addr a = loop4(0);
  int fd = peerListen(a);
  Atomic at;
  l->lfds.push_back(fd); l->addrs.push_back(a);
  uint8_t salt = (uint8_t)(l->id << 4 | (l->lfds.size() & 3) << 2 | 1);
  l->c->saltOut = salt; l->c->rx.reset(salt ^ 2); l->salts.push_back(salt);
  int plan = PEER_PASSIVE;
  if (!l->pair) {
    if (l->w->chaos) plan = (int)op(PEER_PLANS);
    else { static const int ps[] = {PEER_PASSIVE, PEER_STALL, PEER_FIN}; plan = ps[op(3)]; }
  }
  l->plans.push_back(plan);
}
std::string endpointOf(const Addr& a) {
  char b[64];
  snprintf(b, sizeof(b), "127.0.0.1:%u", ntohs(((sockaddr_in*)&a.s)->sin_port));
  return b;
}
// Posts the next life of the connection.
void startLife(Env* e, Link* l, bool first) {
  Conn* c = l->c;
  c->reset();
  newListener(l);
  TCPSocket* s = (TCPSocket*)c->sock;
  c->endpoint = endpointOf(l->addrs.back());
  c->delayMs = op(4) == 0 ? 1 + op(50) : 0;
  c->budget = (int)op(e->clean ? 8 : 12);
  if (!first && e->w.chaos && op(2)) {
    c->silent = true; c->budget = 0;
    Atomic a; l->plans.back() = PEER_PASSIVE;
    e->w.silents = true;
    probe("silent");
  }
  int plan = l->plans.back();
  c->failExpected = (e->pair && !e->clean) || plan == PEER_CLOSE || plan == PEER_RESET || plan == PEER_FIN;
  int life = c->lives;
  int kind = (int)op(first ? 4 : 3);
  if (kind == 3) {
    int fd = -1;
    for (int i = 0; i < 5 && fd < 0; ++i) fd = peerConnect(l->addrs.back(), NEVER);
    if (fd < 0) kind = 0;
    else { fdGive(fd); c->fd = fd; c->file = fdFile(fd); }
  }
  s->Open(g_params);
  if (first && (op(4) == 0 || c->maxLen >= 60000)) {
    probe("send_before_post");
    c->sendFrame(5, false);
    // More than can be sent at once.
    if (c->maxLen >= 60000 && op(2)) { c->minLen = 60000; for (int i = 1 + (int)op(4); i > 0; --i) c->sendFrame(5, false); c->minLen = 0; probe("bulk"); }
    if (op(2)) c->recv(false);
  }
  c->postMs = nowMs();
  c->posted = true;
  switch (kind) {
  case 0: case 1: {
    TCPSocketConnectParams p;
    p.myEndpoint = c->endpoint;
    if (c->delayMs) p.myDelay = mg::box::TimeLimit(mg::box::TimeDuration(c->delayMs));
    c->minConnectMs = nowMs() + c->delayMs;
    s->PostConnect(p, c);
    break;
  }
  case 2:
    c->isTask = true;
    c->wantConnect = e->clean || c->silent || op(4);
    // Not touched after the post.
    s->PostTask(c);
    break;
  case 3: s->PostWrap(c->fd, c); probe("wrap"); break;
  }
  bool wake = false;
  { Atomic a; if (c->lives == life) c->restarting = false; if (c->lives == life && c->posted && !c->deleted) { c->blocked = false; wake = c->isTask; if (wake) ++c->active; } }
  if (wake) { c->wakeup(); c->leave(); }
}
void peerFiber(Env* e, Link* l) {
  World* w = &e->w;
  size_t i = 0;
  while (i < l->lfds.size()) {
    int fd = peerAccept(l->lfds[i], 500 * MS);
    if (fd < 0) {
      Atomic a;
      if (i + 1 < l->lfds.size()) ++i;
      else if (w->ending && (l->c->deleted || l->c->closed)) break;
      continue;
    }
    if (l->pair) {
      fdGive(fd);
      Conn* o = new Conn(w, 10 + l->id);
      o->sock = new TCPSocket(*w->core);
      o->reset();
      o->rx.reset(l->salts[i]); o->saltOut = l->salts[i] ^ 2; o->fd = fd; o->file = fdFile(fd);
      o->empties = l->c->empties; o->maxLen = l->c->maxLen;
      o->budget = (int)op(8); o->postMs = nowMs();
      // The client can end at any time.
      o->failExpected = w->chaos || w->ending;
      { Atomic a; l->other = o; w->conns.push_back(o); o->posted = o->restarting = true; }
      int life = o->lives;
      ((TCPSocket*)o->sock)->Open(g_params);
      o->sock->PostWrap(fd, o);
      { Atomic a; o->restarting = false; if (o->lives == life && o->posted && !o->deleted) o->blocked = false; }
      return;
    }
    Peer* p = new Peer(l->id, l->salts[i], l->salts[i] ^ 2);
    p->fd = fd; p->life = i; p->plan = l->plans[i]; p->frames = op(6); p->maxLen = l->c->maxLen;
    if (p->plan == PEER_STALL) p->planAt = 1 + op(300);
    else p->planAt = op(2) ? 0 : op(3000);
    { Atomic a; l->peers.push_back(p); l->peerLife = i; }
    probe("accepted");
    p->run(w);
    ++i;
    if (i == l->lfds.size()) {
      // The next life is yet to come or not.
      while (i == l->lfds.size()) {
        { Atomic a; if (w->ending && (l->c->deleted || (l->c->closed && !l->c->posted))) break; }
        sleepNs(20 * MS);
      }
    }
  }
}
bool linkDone(Env* e, Link* l) {
  Conn* c = l->c;
  if (e->pair) {
    Conn* o = l->other;
    return o && c->connected && o->connected && c->delivered() == o->postedBytes && o->delivered() == c->postedBytes &&
      c->onSendBytes == c->postedBytes && o->onSendBytes == o->postedBytes;
  }
  Peer* p = l->last();
  if (!p) return false;
  if (p->plan == PEER_FIN) return c->closed && c->delivered() == p->sent && p->allSent;
  return c->connected && p->allSent && c->delivered() == p->sent && p->rx.total == c->postedBytes && c->onSendBytes == c->postedBytes;
}
// Things promised at any time, also in the chaos.
bool connSettled(Link* l, Conn* c) {
  if (!c->posted || c->closed) return true;
  if (c->closeAsked || c->deleted) return false;
  if (c->wakeInv > c->evStart) return false;
  if (c->errors || c->failFile) return false;           // Must close.
  if (c->deadline != UINT64_MAX) return false;          // Must be executed.
  if (c->isTask && !c->wantConnect) return true;
  if (!c->connected) return false;
  if (c->shutCounts) {
    Peer* p = l ? l->last() : nullptr;
    if (l && l->pair) { if (l->other && !l->other->closed && !l->c->closed && !l->other->paused && !l->c->paused) return false; }
    else if (p && !p->eof && !p->err && !p->done) return false;
  }
  // Whatever is sent to a living connection must come.
  if (l && !l->pair && !c->shutAsked && !c->paused) {
    Peer* p = l->current();
    if (!p) return false;
    // A reset connection could be another one: a failed attempt.
    if (p->plan == PEER_PASSIVE && !(p->err && l->w->lossy) && !(p->allSent && c->delivered() == p->sent && p->rx.total == c->postedBytes)) return false;
  }
  return true;
}
void runTcp(bool clean) {
  uint64_t mark = allocMark();
  allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition});
  Env* e = new Env();
  World& w = e->w;
  e->clean = clean; e->pair = choose(K_CFG, 2);
  w.chaos = !clean;
  w.lossy = !clean && choose(K_CFG, 2);
  w.reuse = !e->pair && choose(K_CFG, 2);
  if (w.lossy) allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition,
    F_conn_reset, F_conn_refused, F_conn_unreach, F_conn_timeout, F_conn_immediate_err, F_socket_emfile, F_sockopt_fail, F_send_fail, F_recv_fail});
  if (w.lossy) w.failIo();
  netInit();
  w.core = new IOCore();
  uint32_t threads = 1 + choose(K_CFG, 3);
  w.core->Start(threads);
  int nlinks = 1 + (int)choose(K_CFG, e->pair ? 2 : 3);
  uint32_t maxLen; { static const uint32_t ls[] = {300, 3000, 30, 20000, 300, 60000, 3000}; maxLen = ls[choose(K_CFG, 7)]; }
  bool empties = choose(K_CFG, 3) == 0;
  e->maxLen = maxLen; e->empties = empties; e->bcast = choose(K_CFG, 3) == 0;
  w.restart = [e](Conn* c) { for (Link* l : e->links) if (l->c == c) { startLife(e, l, false); return; } };
  std::vector<int> fibers, actors;
  for (int i = 0; i < nlinks; ++i) {
    Link* l = new Link();
    l->w = &w; l->id = i; l->pair = e->pair;
    Conn* c = new Conn(&w, i);
    l->c = c; c->sock = new TCPSocket(*w.core); c->maxLen = maxLen; c->empties = empties;
    { Atomic a; e->links.push_back(l); w.conns.push_back(c); }
  }
  for (Link* l : e->links) {
    startLife(e, l, true);
    fibers.push_back(spawn("peer", [e, l] { peerFiber(e, l); }));
  }
  int nactors = 1 + (int)op(3);
  for (int k = 0; k < nactors; ++k)
    actors.push_back(spawn("actor", [e, k] {
      World& w = e->w;
      int n = 1 + (int)op(12);
      while (n-- > 0) {
        Conn* c; { Atomic a; c = w.conns[op((uint32_t)w.conns.size())]; }
        if (k == 0 && e->bcast && op(4) == 0) broadcast(&w, e->maxLen, e->empties);
        else if (w.chaos && op(12) == 0) {
          bool d = false;
          { Atomic a; if (!c->deleted && !c->blocked && c->active == 0) d = c->deleted = true; }
          if (d) { probe("delete_any_time"); c->del(); }
        } else if (c->enter()) { c->randomAction(k, false); c->leave(); }
        if (op(2)) sleepNs((uint64_t)(1 + op(50)) * (op(2) ? 10 : 1000) * US);
      }
    }));
  for (int f : actors) join(f);
  stage("everything must be delivered or reported");
  auto wakeAllConns = [&] {
    for (size_t i = 0;; ++i) {
      Conn* c;
      { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; }
      if (c->paused && c->enter()) { c->recv(false); c->leave(); }
    }
  };
  if (clean) {
    // A server side can appear late.
    if (e->pair) {
      bool ok = eventually([&] { for (Link* l : e->links) if (!l->other || l->other->blocked) return false; return true; });
      if (!ok) { for (Link* l : e->links) if (!l->other) violation("C21", "no-connect", "never connected: %s", l->c->state()); }
    }
    { Atomic a; w.draining = true; }
    wakeAllConns();
    bool ok = eventually([&] { for (Link* l : e->links) if (!linkDone(e, l) && !(l->c->closed && l->peers.size() > 1)) return false; return true; });
    if (!ok) for (Link* l : e->links) if (!linkDone(e, l)) {
      std::string a = l->c->state();
      Peer* p = l->last();
      if (!l->c->connected) violation("C21 C20", "no-connect", "never connected: %s", a.c_str());
      if (p) violation("C19", "not-delivered", "data isn't delivered: %s, the peer sent %llu all %d, received %llu, plan %d, eof %d err %d", a.c_str(), (unsigned long long)p->sent, p->allSent, (unsigned long long)p->rx.total, p->plan, p->eof, p->err);
      if (l->other) violation("C19", "not-delivered", "data isn't delivered: %s %s", a.c_str(), l->other->state());
      violation("C19", "not-delivered", "no peer: %s", a.c_str());
    }
  } else if (w.silents ? op(8) : op(2)) {
    // They have nothing to do. Even if something was asked from them before their reopening.
    if (w.silents) {
      if (op(2)) sleepNs((uint64_t)op(500) * MS);
      Atomic a;
      for (Conn* c : w.conns) c->silent = false;
    }
    { Atomic a; w.draining = true; }
    wakeAllConns();
    bool ok = eventually([&] { for (Link* l : e->links) { if (!connSettled(l, l->c)) return false; if (l->other && !connSettled(l, l->other)) return false; } return true; });
    if (!ok) for (Link* l : e->links) for (Conn* c : {l->c, l->other}) if (c && !connSettled(l, c)) {
      Peer* p = l->last();
      violation(c->closeAsked || c->shutAsked ? "C22 C20" : "C20 C21", "stuck", "a connection is stuck: %s, the peer eof %d err %d done %d", c->state(), p ? p->eof : -1, p ? p->err : -1, p ? p->done : -1);
    }
  }
  stage("closing");
  { Atomic a; w.ending = true; for (Conn* c : w.conns) c->failExpected = true; }
  for (size_t i = 0;; ++i) {
    Conn* c;
    { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; c->failExpected = true; if (c->deleted) continue; }
    if (op(3)) { if (c->enter()) { c->close(4, false); c->leave(); } if (op(2)) sleepNs(op(20) * MS); }
  }
  for (size_t i = 0;; ++i) {
    Conn* c; bool d = false;
    { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; }
    // A restart can be going on.
    if (!eventually([&] { return !c->restarting; })) violation("C20 C22", "restart-hang", "a close during a restart is not reported");
    { Atomic a; if (!c->deleted) d = c->deleted = true; }
    if (d) c->del();
  }
  auto waitClosed = [&] {
    bool ok = eventually([&] { for (Conn* c : w.conns) if (c->deleted && c->posted && !c->closed) return false; return true; });
    if (!ok) for (Conn* c : w.conns) if (c->deleted && c->posted && !c->closed) violation("C22 C20", "not-closed", "a closed socket never got its close event: %s", c->state());
  };
  waitClosed();
  stage("peers must see the end");
  bool ok = eventually([&] { for (Link* l : e->links) for (Peer* p : l->peers) if (!p->done) return false; return true; });
  if (!ok) violation("C22 C18", "peer-open", "a peer doesn't see the end of a closed socket");
  stage("the end");
  for (int f : fibers) join(f);
  // A server side could appear late.
  for (Conn* c : w.conns) if (!c->deleted) { c->deleted = true; c->del(); }
  waitClosed();
  for (Link* l : e->links) for (size_t i = 0; i < l->peers.size(); ++i) {
    Peer* p = l->peers[i];
#if !MG_IOCORE_USE_IOURING
    // A reset isn't an end of stream. With io_uring a send in flight could take the error of the socket and be completed
    // after the receive has seen the end, so nothing is promised there.
    if (p->plan == PEER_RESET && p->closedByUs && p->life < l->c->quietEnds.size()) {
      SIM_CHECK(!l->c->quietEnds[p->life] || w.lossy, "C19 C20", "silent-reset", "the connection was reset by its peer, but the socket is closed with no error");
      probe("reset_reported");
    }
#endif
    if (i + 1 == l->peers.size() && l->peers.size() == l->lfds.size()) {
      SIM_CHECK(p->rx.total <= l->c->postedBytes, "C19", "too-much", "the peer got %llu bytes of %llu", (unsigned long long)p->rx.total, (unsigned long long)l->c->postedBytes);
      // The end of stream comes in order.
      if (p->eof) SIM_CHECK(p->rx.total >= l->c->onSendBytes, "C19 C22", "lost-tail", "the peer got the end after %llu bytes, %llu were reported as sent", (unsigned long long)p->rx.total, (unsigned long long)l->c->onSendBytes);
    }
  }
  SIM_CHECK(w.core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() failed");
  w.core->Stop();
  w.dead = true;
  delete w.core;
  for (Link* l : e->links) {
    for (int fd : l->lfds) peerClose(fd);
    for (Peer* p : l->peers) { if (p->fd >= 0) peerClose(p->fd); delete p; }
  }
  for (Conn* c : w.conns) { c->freeHeld(); delete c; }
  for (void* p : w.held) free(p);
  for (Link* l : e->links) delete l;
  delete e;
  std::vector<int>().swap(fibers); std::vector<int>().swap(actors);
  SIM_CHECK(openFdCount() == 0, "C22 C18", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  checkLeaks(mark, "C22 C16");
}
}

WORKLOAD(wn_tcp_clean, "C19 C20 C29", 4) { runTcp(true); }
WORKLOAD(wn_tcp_chaos, "C20 C22 C19 C29", 4) { runTcp(false); }
