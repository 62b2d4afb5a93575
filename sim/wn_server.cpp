// The listening server: clients come, go and break at any moment, the server is closed
// from anywhere.
#include "an_net.h"
#include "mg/aio/TCPServer.h"
#include <cstring>

using namespace sim;
using namespace mg::aio;

namespace {
typedef std::string Key;      // The address of a client.
Key keyOf(const Addr& a) {
  char b[64];
  if (a.s.ss_family == AF_INET) { auto* s = (const sockaddr_in*)&a.s; snprintf(b, sizeof(b), "4 %08x %u", s->sin_addr.s_addr, ntohs(s->sin_port)); }
  else { auto* s = (const sockaddr_in6*)&a.s; snprintf(b, sizeof(b), "6 %02x%02x %u", s->sin6_addr.s6_addr[14], s->sin6_addr.s6_addr[15], ntohs(s->sin6_port)); }
  return b;
}
Key keyOf(const mg::net::Host& h) {
  Addr a; memset(&a, 0, sizeof(a));
  a.len = h.IsIPV4() ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
  memcpy(&a.s, &h.myAddr, a.len);
  return keyOf(a);
}
struct Env;
struct Echo : TCPSocketSubscription {
  Env* e; TCPSocket* s; bool got = false;
  Echo(Env* e) : e(e), s(nullptr) {}
  void OnConnect() override { s->Recv(10); }
  void OnRecv(mg::net::BufferReadStream& st) override;
  void OnError(mg::box::Error*) override {}
  void OnClose() override;
};
struct Server : TCPServerSubscription {
  Env* e; int id; TCPServer::Ptr ptr;
  Addr addr; uint16_t port = 0;
  bool listening = false, open = false, samePort = false, closeAsked = false, closed = false, dropped = false, dropInClose = false;
  bool inCb = false; bool lostConnects = false; int closeCalls = 0; int closeAfter = -1;
  std::map<Key, int> accepts;   // What is done to them.
  uint64_t cell[2];
  Server(Env* e, int id) : e(e), id(id) {}
  void drop() { { Atomic a; SIM_CHECK(!dropped, "C24", "harness", "dropped twice"); dropped = true; } ptr.Clear(); }
  void close() {
    bool was; { Atomic a; was = closeAsked; closeAsked = true; if (was && !closed) probe("close_again"); ++closeCalls; }
    ptr->PostClose();
    Atomic a; --closeCalls;
  }
  void OnAccept(mg::net::Socket sock, const mg::net::Host& host) override;
  void OnClose() override;
};
struct Client { int id; Server* s; int fd = -1; Key key; bool done = false; bool ok = false; bool abort = false; const char* why = ""; };
struct Env {
  IOCore* core = nullptr; bool dead = false, ending = false, faults = false;
  std::vector<Server*> servers;
  std::vector<Client*> clients;
  std::vector<std::pair<int, int>> raw;   // Descriptors to serve: fd, how.
  int echoes = 0;
};
TCPSocketParams g_params;
void Echo::OnRecv(mg::net::BufferReadStream& st) {
  uint8_t b[64]; uint64_t n = st.GetReadSize();
  SIM_CHECK(n > 0 && n <= 4, "C19 C24", "echo", "an accepted socket got %llu bytes", (unsigned long long)n);
  if (n < 4) { s->Recv(10); return; }
  st.ReadData(b, n);
  s->SendCopy(b, n); s->Recv(10);
}
void Echo::OnClose() { s->Delete(); { Atomic a; --e->echoes; } delete this; }
void Server::OnAccept(mg::net::Socket sock, const mg::net::Host& host) {
  int how;
  {
    Atomic a;
    SIM_CHECK(!inCb, "C24", "overlap", "server %d: OnAccept during another callback", id);
    SIM_CHECK(!closed, "C24", "after-close", "server %d: OnAccept after OnClose", id);
    SIM_CHECK(listening, "C24", "not-listening", "server %d: OnAccept, but it isn't listening", id);
    SIM_CHECK(!e->dead, "C24 C18", "core-stopped", "server %d: OnAccept when the core is stopped", id);
    inCb = true;
    payloadWrite(cell, sizeof(cell), "server callbacks");
    ++cell[0];
    SIM_CHECK(sock == lastAcceptedFd() || fdFile(sock) != 0, "C24", "bad-socket", "server %d: a bad descriptor %lld", id, (long long)sock);
    how = (int)op(5);
    Key k = keyOf(host);
    SIM_CHECK(accepts.count(k) == 0, "C24", "accept-twice", "server %d: the connection from %s is reported twice", id, k.c_str());
    for (Server* s : e->servers) for (auto& q : s->accepts) SIM_CHECK(q.first != k, "C24", "accept-twice", "the connection from %s is reported by two servers", k.c_str());
    Addr remote; remote.len = sizeof(remote.s); memset(&remote.s, 0, sizeof(remote.s));
    accepts[k] = how;
    traceOp("cb: server %d OnAccept fd %lld from %s how %d", id, (long long)sock, k.c_str(), how);
    probe("accepted");
  }
  SIM_CHECK(ptr->IsClosed() == false, "C24", "state", "server %d: closed in OnAccept", id);
  if (how <= 1) {
    Echo* x = new Echo(e);
    { Atomic a; ++e->echoes; }
    x->s = new TCPSocket(ptr->GetCore());
    x->s->Open(g_params);
    x->s->PostWrap(sock, x);
  } else if (how == 4) { mg::net::SocketClose(sock); probe("closed_by_server"); }
  else { Atomic a; e->raw.push_back({(int)sock, how}); }
  if (op(6) == 0) sleepNs((uint64_t)(1 + op(300)) * US);
  bool c = false;
  { Atomic a; if (closeAfter >= 0 && --closeAfter < 0) c = true; }
  if (c) { probe("close_in_accept"); close(); }
  { Atomic a; inCb = false; }
}
void Server::OnClose() {
  {
    Atomic a;
    traceOp("cb: server %d OnClose", id);
    SIM_CHECK(!inCb, "C24", "overlap", "server %d: OnClose during another callback", id);
    SIM_CHECK(!closed, "C24", "close-twice", "server %d: a second OnClose", id);
    SIM_CHECK(closeAsked, "C24", "spontaneous-close", "server %d: OnClose without a request", id);
    SIM_CHECK(listening, "C24", "not-listening", "server %d: OnClose, but it wasn't listening", id);
    SIM_CHECK(!e->dead, "C24 C18", "core-stopped", "server %d: OnClose when the core is stopped", id);
    payloadWrite(cell, sizeof(cell), "server callbacks");
    ++cell[0];
  }
  SIM_CHECK(ptr->IsClosed(), "C24", "state", "server %d: not closed in OnClose", id);
  bool d = false;
  { Atomic a; closed = true; if (dropInClose && closeCalls == 0 && !dropped) d = dropped = true; }
  probe("server_closed");
  if (d) { TCPServer::Ptr p(std::move(ptr)); p.Clear(); probe("drop_in_close"); }
}
void clientRun(Env* e, Client* c) {
  Server* s = c->s;
  bool before, after;
  { Atomic a; before = s->open && !s->closeAsked; after = s->closed; }
  int fd = peerConnect(s->addr, NEVER);
  if (fd < 0) {
    Atomic a;
    for (Server* o : e->servers) if (o == s || o->port == s->port) o->lostConnects = true;
    SIM_CHECK(!before || s->closeAsked || faultEnabled(F_conn_reset) || faultEnabled(F_accept_abort) || (e->faults && faultsAreOff()), "C24", "refused", "client %d: a connect to a listening server %d fails", c->id, s->id);
    c->done = true; return;
  }
  Addr me; memset(&me, 0, sizeof(me)); me.len = sizeof(me.s);
  getsockname(fd, (sockaddr*)&me.s, &me.len);
  {
    Atomic a;
    SIM_CHECK(!after || s->samePort, "C24", "still-listening", "client %d: connected to a closed server %d", c->id, s->id);
    c->key = keyOf(me); c->fd = fd;
  }
  if (c->abort) {
    if (op(3)) sleepNs((uint64_t)op(400) * US);
    if (op(2)) peerReset(fd); else peerClose(fd);
    { Atomic a; c->done = true; c->fd = -1; probe("client_abort"); }
    return;
  }
  uint8_t tok[4] = {(uint8_t)c->id, 1, 2, 3}, b[16]; size_t got = 0;
  if (op(3) == 0) sleepNs((uint64_t)op(2000) * US);
  if (peerSend(fd, tok, 4) == 4) {
    while (got < 4) {
      long rc = peerRecv(fd, b + got, sizeof(b) - got, NEVER);
      if (rc <= 0) { c->why = rc == 0 ? "eof" : rc == -1 ? strerror(errno) : "timeout"; break; }
      got += (size_t)rc;
    }
  } else c->why = "send";
  Atomic a;
  if (got >= 4) {
    SIM_CHECK(got == 4 && memcmp(b, tok, 4) == 0, "C19 C24", "echo", "client %d: a wrong answer of %zu bytes", c->id, got);
    c->ok = true; probe("echo");
  } else {
    auto it = s->accepts.find(c->key);
    bool fine = s->closeAsked || (e->faults && faultsAreOff()) || faultEnabled(F_accept_abort) || faultEnabled(F_conn_reset) || (it != s->accepts.end() && it->second == 4);
    SIM_CHECK(fine, "C24", "lost", "client %d: its connection to a listening server %d is broken: %s", c->id, s->id, c->why);
  }
  peerClose(fd);
  c->done = true; c->fd = -1;
}
void handlerRun(Env* e) {
  while (true) {
    std::pair<int, int> x{-1, 0};
    if (!waitUntil([&] { return !e->raw.empty() || e->ending; }, NEVER)) continue;
    { Atomic a; if (!e->raw.empty()) { x = e->raw.front(); e->raw.erase(e->raw.begin()); } else if (e->ending) return; }
    if (x.first < 0) continue;
    uint8_t b[8]; size_t got = 0;
    while (got < 4) { long rc = peerRecv(x.first, b + got, 4 - got, NEVER); if (rc <= 0) break; got += (size_t)rc; }
    if (got == 4) peerSend(x.first, b, 4);
    peerClose(x.first);
  }
}
void run(bool faults) {
  uint64_t mark = allocMark();
  if (faults) allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_accept_abort, F_conn_reset, F_bind_fail, F_socket_emfile, F_cancel_race, F_sockopt_fail});
  else allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race});
  netInit();
  Env* e = new Env();
  e->faults = faults;
  e->core = new IOCore();
  e->core->Start(1 + choose(K_CFG, 3));
  int ns = 1 + (int)choose(K_CFG, 2);
  std::vector<int> fibers, handlers, closers;
  for (int i = 0; i < ns; ++i) {
    Server* s = new Server(e, i);
    s->ptr = TCPServer::NewShared(*e->core);
    { Atomic a; e->servers.push_back(s); }
    s->dropInClose = op(2);
    if (op(4) == 0) s->closeAfter = (int)op(4);
    SIM_CHECK(!s->ptr->IsClosed(), "C24", "state", "a new server is closed");
    bool v6 = op(4) == 0, all = op(3) == 0;
    uint16_t port = op(3) ? 0 : (uint16_t)(3000 + op(2));
    mg::net::Host h = v6 ? (all ? mg::net::HostMakeAllIPV6(port) : mg::net::HostMakeLocalIPV6(port)) : (all ? mg::net::HostMakeAllIPV4(port) : mg::net::HostMakeLocalIPV4(port));
    mg::box::Error::Ptr err;
    s->addr = v6 ? loop6(9) : loop4(9);
    if (op(20) == 0) { probe("never_bound"); if (op(2)) { s->close(); SIM_CHECK(s->ptr->IsClosed(), "C24", "state", "a server isn't closed after its close"); } s->closed = true; continue; }
    bool bound = s->ptr->Bind(h, err);
    if (!bound) {
      bool taken = i > 0 && port != 0;
      SIM_CHECK(err.IsSet(), "C24", "no-error", "bind failed without an error");
      SIM_CHECK(faults || taken, "C24", "bind", "bind failed: %s", err->myMessage.c_str());
      { Atomic a; s->closed = true; }
      probe("bind_error");
      if (op(2)) s->close();
      continue;
    }
    s->port = s->ptr->GetPort();
    SIM_CHECK(s->port != 0 && (port == 0 || s->port == port), "C24", "port", "bound to port %u instead of %u", s->port, port);
    { Atomic a; s->addr = v6 ? loop6(s->port) : loop4(s->port); }
    if (op(16) == 0) { s->close(); SIM_CHECK(s->ptr->IsClosed(), "C24", "state", "a bound server isn't closed after its close"); { Atomic a; s->closed = true; } probe("closed_bound"); continue; }
    { Atomic a; s->listening = true; }
    if (!s->ptr->Listen(op(2) ? 1 : mg::net::SocketMaxBacklog(), s, err)) {
      SIM_CHECK(faults, "C24", "listen", "listen failed: %s", err->myMessage.c_str());
      SIM_CHECK(err.IsSet(), "C24", "no-error", "listen failed without an error");
      { Atomic a; s->listening = false; }
      s->close();
      { Atomic a; s->closed = true; }
      probe("listen_error");
    } else { Atomic a; s->open = true; }
    for (Server* o : e->servers) if (o != s && o->port == s->port) o->samePort = s->samePort = true;
  }
  handlers.push_back(spawn("handler", [e] { handlerRun(e); }));
  handlers.push_back(spawn("handler2", [e] { handlerRun(e); }));
  int nc = 1 + (int)op(6);
  for (int i = 0; i < nc; ++i) {
    int rounds = 1 + (int)op(3);
    int seed = (int)op(2);
    fibers.push_back(spawn("client", [e, i, rounds, seed, ns] {
      for (int r = 0; r < rounds; ++r) {
        Client* c = new Client();
        c->id = i * 8 + r; c->s = e->servers[op((uint32_t)ns)];
        c->abort = op(5) == 0;
        { Atomic a; e->clients.push_back(c); }
        clientRun(e, c);
        if (op(2)) sleepNs((uint64_t)op(4000) * US);
      }
      (void)seed;
    }));
  }
  bool early = choose(K_CFG, 2);
  int ncl = early ? 1 + (int)op(2) : 0;
  for (int i = 0; i < ncl; ++i)
    closers.push_back(spawn("closer", [e, ns] {
      int k = 1 + (int)op(3);
      while (k-- > 0) {
        sleepNs((uint64_t)(1 + op(100)) << op(18) << 3);
        Server* s = e->servers[op((uint32_t)ns)];
        bool go = false;
        { Atomic a; if (s->listening && !s->closed && !s->dropped) { ++s->closeCalls; go = true; } }
        if (go) { s->close(); Atomic a; --s->closeCalls; }
      }
    }));
  for (int f : closers) join(f);
  stage("the clients must be served");
  auto served = [&] { for (Client* c : e->clients) if (!c->done) return false; return true; };
  auto allDone = [&] { return served(); };
  if (!eventually([&] { return allDone(); })) {
    for (Client* c : e->clients) if (!c->done) {
      bool acc = c->s->accepts.count(c->key) > 0;
      violation(acc ? "C19 C24" : "C24", acc ? "no-answer" : "not-accepted", "client %d of the server %d (closing %d, closed %d) waits forever, accepted %d", c->id, c->s->id, c->s->closeAsked, c->s->closed, acc);
    }
  }
  for (int f : fibers) join(f);
  stage("closing");
  // Also from several threads at once.
  std::vector<int> fin;
  for (Server* s : e->servers) {
    if (!s->listening || s->dropped) continue;
    int k = 1 + (int)op(3);
    for (int i = 0; i < k; ++i) {
      bool go = false;
      { Atomic a; if (!s->dropped) { ++s->closeCalls; go = true; } }
      if (!go) break;
      if (op(2)) { s->close(); Atomic a; --s->closeCalls; }
      else fin.push_back(spawn("closer", [s] { s->close(); Atomic a; --s->closeCalls; }));
    }
  }
  for (int f : fin) join(f);
  if (!eventually([&] { for (Server* s : e->servers) if (!s->closed) return false; return true; }))
    for (Server* s : e->servers) if (!s->closed) violation("C24", "not-closed", "a closed server %d never got its close event", s->id);
  { Atomic a; e->ending = true; }
  for (int f : handlers) join(f);
  if (!eventually([&] { return e->echoes == 0; })) violation("C22 C24", "not-closed", "sockets of accepted connections aren't closed");
  for (Server* s : e->servers) if (!s->dropped) { bool is = s->listening ? s->ptr->IsClosed() : true; SIM_CHECK(is, "C24", "state", "a closed server isn't closed"); s->drop(); }
  SIM_CHECK(e->core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() failed");
  e->core->Stop();
  e->dead = true;
  delete e->core;
  // Nothing accepted is foreign.
  for (Server* s : e->servers)
    for (auto& q : s->accepts) {
      bool found = s->lostConnects;
      for (Client* c : e->clients) if (c->key == q.first && c->s->port == s->port) found = true;
      SIM_CHECK(found, "C24", "foreign-accept", "server %d: reported a connection from %s which nobody made", s->id, q.first.c_str());
    }
  for (Server* s : e->servers) { payloadForget(s->cell, sizeof(s->cell)); delete s; }
  for (Client* c : e->clients) delete c;
  delete e;
  std::vector<int>().swap(fibers); std::vector<int>().swap(handlers); std::vector<int>().swap(closers); std::vector<int>().swap(fin);
  SIM_CHECK(openFdCount() == 0, "C24", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  checkLeaks(mark, "C24");
}
}
WORKLOAD(wn_server, "C24 C29", 3) { run(false); }
WORKLOAD(wn_server_faults, "C24 C29", 3) { run(true); }
