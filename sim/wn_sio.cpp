// The simple polling sockets.
#include "an_net.h"
#include "mg/sio/TCPServer.h"
#include "mg/sio/TCPSocket.h"
#include <cstring>

using namespace sim;
using mg::sio::TCPSocket; using mg::sio::TCPServer;
using mg::box::Error;

namespace {
// The last injected failure of an operation of each fiber. It has to be returned by the same call.
int g_failed[MAXF];
bool failHook(uint64_t, bool, int err) { if (err) g_failed[self()] = err; return true; }
// One side of a connection.
struct End {
  TCPSocket* s; Parser rx; uint8_t saltOut = 0; uint32_t seq = 0, frames = 0, maxLen = 300;
  uint64_t posted = 0; bool empties = false; uint32_t emptyBudget = 20;
  std::vector<void*> held;
  int id; const char* who;
  bool eof = false, failed = false, wasConnected = false; uint32_t err = 0;
  End(const char* who, int id) : s(new TCPSocket()), rx(who, id, "C26"), id(id), who(who) {}
  ~End() { delete s; freeHeld(); }
  void freeHeld() { for (void* p : held) free(p); held.clear(); }
  void fresh(uint8_t in, uint8_t out) { rx.reset(in); saltOut = out; seq = 0; posted = 0; emptyBudget = 20; eof = failed = wasConnected = false; err = 0; freeHeld(); }
  const char* state() { return s->IsClosed() ? "closed" : s->IsConnected() ? "connected" : "connecting"; }
  void checkStates() {
    SIM_CHECK((int)s->IsClosed() + (int)s->IsConnected() + (int)s->IsConnecting() == 1, "C26", "state", "%s %d: not exactly one state", who, id);
  }
  void gotError(Error::Ptr& e, const char* what) {
    SIM_CHECK(e.IsSet(), "C26", "no-error", "%s %d: %s failed without an error", who, id, what);
    SIM_CHECK(e->myCode != mg::box::ERR_BOX_NONE, "C26", "no-error", "%s %d: %s failed with an empty error", who, id, what);
    SIM_CHECK(s->IsClosed(), "C26", "not-closed", "%s %d: %s failed, but the socket is %s", who, id, what, state());
    failed = true; err = (uint32_t)e->myCode;
    traceOp("%s %d: %s failed: %s", who, id, what, e->myMessage.c_str());
    freeHeld();
  }
  void checkFailed(Error::Ptr& e, const char* what) {
    int err = g_failed[self()];
    if (!err) return;
    SIM_CHECK(e.IsSet(), "C26", "no-error", "%s %d: an error %d of an operation is lost in %s", who, id, err, what);
    SIM_CHECK(e->myCode == mg::box::ErrorCodeFromErrno(err), "C26", "error-code", "%s %d: the error of %s is %u, but the reason was %d", who, id, what, (unsigned)e->myCode, err);
    SIM_CHECK(s->IsClosed(), "C26", "not-closed", "%s %d: a failed %s doesn't close the socket", who, id, what);
    probe("failure_reported");
  }
  // An error of something else, given to a call which has nothing to do with it.
  static Error::Ptr stale() {
    Error::Ptr e;
    if (op(4) == 0) { e = mg::box::ErrorRaise(mg::box::ERR_BOX_TIMEOUT, "stale"); probe("stale_error"); }
    return e;
  }
  // False when it is over.
  bool update() {
    Error::Ptr e = stale(), old = e;
    bool wasClosed = s->IsClosed(), wasConn = s->IsConnected();
    g_failed[self()] = 0;
    bool ok = s->Update(e);
    if (old.IsSet() && e == old) e.Clear();
    checkFailed(e, "update");
    checkStates();
    if (!ok) { SIM_CHECK(!wasClosed, "C26", "bad-error", "%s %d: an update of a closed socket failed", who, id); gotError(e, wasConn ? "update" : "connect"); return false; }
    SIM_CHECK(!e.IsSet(), "C26", "bad-error", "%s %d: a successful update left an error %s", who, id, e->myMessage.c_str());
    SIM_CHECK(s->IsClosed() == wasClosed && (!wasConn || s->IsConnected()), "C26", "state", "%s %d: a successful update changed the state", who, id);
    if (s->IsConnected()) wasConnected = true;
    if (!wasConn && s->IsConnected()) probe("connected_async");
    return !wasClosed;
  }
  void send() {
    Bytes f;
    if (frames == 0) { sendEmpty(); return; }
    --frames;
    makeFrame(f, saltOut, 0, seq++, inSize(maxLen));
    size_t pos = 0;
    posted += f.size();
    while (pos < f.size()) {
      size_t k = f.size() - pos;
      if (op(4) == 0) k = 1 + op((uint32_t)k);
      const uint8_t* d = f.data() + pos;
      uint32_t how = op(s->IsConnected() ? 4 : 3);
      if (how == 3) { s->SendCopy(d, k); probe("send_copy"); }
      else {
        uint8_t* m = (uint8_t*)malloc(k); memcpy(m, d, k); held.push_back(m);
        if (how == 0) s->SendRef(m, k);
        else {
          Buffer::Ptr b = cutBuffers(m, k, empties, true);
          if (how == 1) s->SendRef(b.GetPointer()); else s->SendRef(std::move(b));
        }
        if (s->IsConnecting()) probe("send_connecting");
      }
      pos += k;
      if (op(4) == 0 && empties) sendEmpty();
    }
  }
  void sendEmpty() {
    if (!empties || emptyBudget == 0) return;
    --emptyBudget;
    probe("send_empty");
    switch (op(s->IsConnected() ? 5 : 4)) {
    case 0: { Buffer::Ptr b = BufferRaw::NewShared(); s->SendRef(b.GetPointer()); break; }
    case 1: { Buffer::Ptr b = BufferCopy::NewShared(); s->SendRef(std::move(b)); break; }
    case 2: s->SendRef((const Buffer*)nullptr); break;
    case 3: s->SendRef(this, (uint64_t)0); break;
    case 4: s->SendCopy(this, 0); break;
    }
  }
  // False when it would block or is over.
  bool recv() {
    Error::Ptr e = stale(), old = e;
    int64_t rc;
    if (op(2)) {
      uint8_t b[700]; uint32_t n = 1 + op(3) * op(sizeof(b) / 2);
      memset(b, 0xEE, sizeof(b));
      g_failed[self()] = 0;
      rc = s->Recv(b, n, e);
      if (old.IsSet() && e == old) e.Clear();
      checkFailed(e, "receive");
      SIM_CHECK(rc <= (int64_t)n, "C26", "recv-size", "%s %d: received %lld bytes into %u", who, id, (long long)rc, n);
      size_t got = rc > 0 ? (size_t)rc : 0;
      for (size_t i = got; i < sizeof(b); ++i) SIM_CHECK(b[i] == 0xEE, "C26", "recv-touched", "%s %d: byte %zu is touched when %lld were received", who, id, i, (long long)rc);
      if (got) rx.feed(b, got);
    } else {
      Buffer::Ptr head; uint64_t cap = 0; int n = 1 + (int)op(4); Bytes mem;
      mem.reserve(4096);
      for (int i = 0; i < n; ++i) {
        Buffer::Ptr b;
        if (op(2)) { b = BufferCopy::NewShared(); memset(b->myWData, 0xEE, b->myCapacity); if (i + 1 == n) b->myPos = op(2) ? 0 : op(b->myCapacity); }
        else { uint32_t k = 1 + op(40); size_t at = mem.size(); mem.resize(at + k, 0xEE); b = BufferRaw::NewShared(mem.data() + at, 0u, k); if (i + 1 == n) b->myPos = op(k); }
        cap += b->myCapacity - b->myPos;
        b->myNext = std::move(head); head = std::move(b);
      }
      if (cap == 0) return true;
      std::vector<uint32_t> pos; for (Buffer* b = head.GetPointer(); b; b = b->myNext.GetPointer()) pos.push_back(b->myPos);
      g_failed[self()] = 0;
      rc = s->Recv(head.GetPointer(), e);
      if (old.IsSet() && e == old) e.Clear();
      checkFailed(e, "receive");
      SIM_CHECK(rc <= (int64_t)cap, "C26", "recv-size", "%s %d: received %lld bytes into %llu", who, id, (long long)rc, (unsigned long long)cap);
      uint64_t left = rc > 0 ? (uint64_t)rc : 0; size_t bi = 0;
      for (Buffer* b = head.GetPointer(); b; b = b->myNext.GetPointer(), ++bi) {
        SIM_CHECK(bi < pos.size() && b->myPos == pos[bi], "C26", "recv-touched", "%s %d: a receive changed the buffer list", who, id);
        uint64_t k = b->myCapacity - b->myPos; if (k > left) k = left;
        if (k) rx.feed(b->myRData + b->myPos, k);
        left -= k;
        for (uint32_t i = 0; i < b->myCapacity; ++i) if (i < b->myPos || i >= b->myPos + k)
          SIM_CHECK(b->myRData[i] == 0xEE, "C26", "recv-touched", "%s %d: a byte out of the received range is touched", who, id);
      }
      probe("recv_buffers");
    }
    checkStates();
    if (rc > 0) {
      SIM_CHECK(!e.IsSet(), "C26", "bad-error", "%s %d: a successful receive left an error", who, id);
      SIM_CHECK(s->IsConnected(), "C26", "state", "%s %d: %s after a successful receive", who, id, state());
      return true;
    }
    if (rc == 0) {
      SIM_CHECK(!e.IsSet(), "C26", "bad-error", "%s %d: the end of stream with an error", who, id);
      SIM_CHECK(s->IsClosed(), "C26", "not-closed", "%s %d: the end of stream, but the socket is %s", who, id, state());
      eof = true; probe("eof"); freeHeld();
      return false;
    }
    if (!e.IsSet()) { SIM_CHECK(s->IsConnected(), "C26", "state", "%s %d: %s after a blocked receive", who, id, state()); return false; }
    gotError(e, "recv");
    return false;
  }
  void close() {
    s->Close();
    SIM_CHECK(s->IsClosed(), "C26", "not-closed", "%s %d: %s after a close", who, id, state());
    freeHeld();
    if (op(4) == 0) { s->Close(); probe("close_again"); }
  }
  // One round of everything.
  void step(bool drain) {
    int n = 1 + (int)op(3);
    while (n-- > 0 && !s->IsClosed()) {
      switch (op(drain ? 2 : 3)) {
      case 0: update(); break;
      case 1: if (s->IsConnected()) { int k = (int)op(6); while (k-- > 0 && recv()) {} } break;
      case 2: send(); break;
      }
    }
    // Sending to a closed one is nothing.
    if (s->IsClosed() && op(8) == 0) { uint8_t b[3] = {1, 2, 3}; s->SendRef(b, 3); Buffer::Ptr p = BufferCopy::NewShared(); p->myPos = 3; s->SendRef(p.GetPointer()); s->SendRef(std::move(p)); probe("send_closed"); update(); }
  }
};
enum { T_PEER, T_SERVER, T_REFUSE, T_TIMEOUT, T_UNREACH, T_UNREACH_NOW, T_KINDS };
struct Life;
struct Client { int id; End end; int lives; bool done = false; Client(int id) : id(id), end("client", id), lives(1) {} };
struct Acc { End end; Life* life = nullptr; uint8_t hdr[FRAME_HDR]; uint32_t nhdr = 0; bool over = false; std::string peer; Acc(int id) : end("server side", id) {} };
struct Life { uint8_t salt; int client; std::string local; bool over = false; Acc* acc = nullptr; bool claimed = false, complete = false; End* end = nullptr; uint32_t epoch; };
struct Env {
  World w; bool lossy; bool empties; uint32_t maxLen;
  std::vector<Client*> clients; int liveClients = 0;
  // The server.
  bool useServer = false; TCPServer* srv = nullptr; Addr srvAddr; bool srvUp = false; uint32_t epoch = 0;
  std::map<uint8_t, Life*> lives; std::vector<Acc*> accs;
  int restarts = 0, acceptErrors = 0;
};
mg::net::Host hostOf(const Addr& a) { mg::net::Host h; h.Set((const mg::net::Sockaddr*)&a.s); return h; }
void pollSleep(uint32_t& idle, bool progress) {
  if (progress) idle = 0; else if (idle < 16) ++idle;
  uint64_t d = (20 * US) << (idle > 4 ? idle - 4 : 0);
  sleepNs(1 + op((uint32_t)d) + d / 2);
}

void serverFiber(Env* e) {
  uint32_t idle = 0; uint64_t lastTotal = 0; int nextAcc = 0; int untilClose = op(2) ? 1 + (int)op(60) : -1;
  uint16_t port = 0; bool v6 = op(3) == 0;
  while (true) {
    bool progress = false;
    { Atomic a; if (e->liveClients == 0) { bool all = true; for (Acc* x : e->accs) if (!x->over) all = false; if (all) break; } }
    if (!e->srvUp && e->liveClients > 0) {
      Addr any; memset(&any, 0, sizeof(any));
      any = v6 ? loop6(0) : loop4(0);
      mg::net::Host h = hostOf(any);
      if (port && op(2)) h.SetPort(port);
      Error::Ptr err;
      bool same = h.GetPort() != 0;
      bool ok = e->srv->Bind(h, err);
      SIM_CHECK(ok == !err.IsSet(), "C26", ok ? "bad-error" : "no-error", "server: a bind returned %d with%s an error", ok, err.IsSet() ? "" : "out");
      if (!ok) SIM_CHECK(faultEnabled(F_bind_fail) || faultEnabled(F_socket_emfile) || faultEnabled(F_sockopt_fail) || faultsAreOff(), "C26", "bad-error", "server: a bind failed: %s", err->myMessage.c_str());
      if (ok) {
        port = e->srv->GetPort();
        SIM_CHECK(port != 0 && (!same || port == h.GetPort()), "C26", "port", "server: a wrong port %u", port);
        if (op(6) == 0) { e->srv->Close(); probe("close_bound"); continue; }
        ok = e->srv->Listen(1 + op(60), err);
        SIM_CHECK(ok == !err.IsSet(), "C26", ok ? "bad-error" : "no-error", "server: a listen returned %d with%s an error", ok, err.IsSet() ? "" : "out");
        if (!ok) { SIM_CHECK(faultEnabled(F_bind_fail) || faultsAreOff(), "C26", "bad-error", "server: a listen failed: %s", err->myMessage.c_str()); probe("listen_failed"); }
      } else probe("bind_failed");
      if (ok) {
        SIM_CHECK(e->srv->GetPort() == port, "C26", "port", "server: the port has changed");
        Atomic a; e->srvUp = true; ++e->epoch; e->srvAddr = v6 ? loop6(port) : loop4(port);
      } else { sleepNs((uint64_t)(1 + op(20)) * MS); continue; }
      progress = true;
    }
    int m = (int)op(4);
    while (e->srvUp && m-- > 0) {
      mg::net::Host from; Error::Ptr err = End::stale(), old = err;
      g_net.acceptFailed = 0;
      mg::net::Socket s = e->srv->Accept(from, err);
      if (old.IsSet() && err == old) err.Clear();
      if (g_net.acceptFailed) SIM_CHECK(err.IsSet() && err->myCode == mg::box::ErrorCodeFromErrno(g_net.acceptFailed), "C26", "no-error", "server: the error %d of an accept is lost", g_net.acceptFailed);
      if (s == mg::net::theInvalidSocket) {
        if (err.IsSet()) {
          SIM_CHECK(faultEnabled(F_accept_err) || faultsAreOff(), "C26", "bad-error", "server: an accept failed: %s", err->myMessage.c_str());
          Atomic a; e->srvUp = false; ++e->epoch; ++e->acceptErrors; probe("accept_failed");
        }
        break;
      }
      SIM_CHECK(!err.IsSet(), "C26", "bad-error", "server: a successful accept left an error");
      progress = true;
      sockaddr_storage ss; socklen_t len = sizeof(ss); memset(&ss, 0, sizeof(ss));
      SIM_CHECK(fdFile(s) != 0, "C26", "bad-socket", "server: accepted a bad descriptor");
      if (getpeername(s, (sockaddr*)&ss, &len) == 0) {
        mg::net::Host h; h.Set((const mg::net::Sockaddr*)&ss);
        SIM_CHECK(h.ToString() == from.ToString(), "C26", "peer-address", "server: the client's address is %s, but it is told as %s", h.ToString().c_str(), from.ToString().c_str());
      }
      Acc* a = new Acc(nextAcc++);
      SIM_CHECK(a->end.s->IsClosed(), "C26", "state", "a new socket isn't closed");
      a->end.s->Wrap(s);
      SIM_CHECK(a->end.s->IsConnected(), "C26", "state", "a wrapped socket isn't connected");
      a->end.empties = e->empties; a->end.maxLen = e->maxLen;
      { Atomic at; e->accs.push_back(a); }
      probe("accepted");
    }
    if (e->srvUp && untilClose > 0 && --untilClose == 0) {
      // The not accepted connections break.
      e->srv->Close();
      Atomic a; e->srvUp = false; ++e->epoch; ++e->restarts; probe("server_restart");
      if (e->lossy && op(2)) untilClose = 1 + (int)op(100);
    }
    std::vector<Acc*> accs; { Atomic a; accs = e->accs; }
    for (Acc* a : accs) {
      if (a->over) continue;
      End& x = a->end;
      if (!a->life) {
        // Who is it?
        Error::Ptr err;
        int64_t rc = x.s->Recv(a->hdr + a->nhdr, FRAME_HDR - a->nhdr, err);
        if (rc > 0) {
          a->nhdr += (uint32_t)rc;
          progress = true;
          if (a->nhdr < FRAME_HDR) continue;
          Atomic at;
          auto it = e->lives.find(a->hdr[1]);
          SIM_CHECK(it != e->lives.end(), "C26", "data", "server side %d: wrong first bytes", x.id);
          Life* l = it->second;
          SIM_CHECK(!l->claimed, "C26", "accept-twice", "one connection came twice");
          l->claimed = true; a->life = l; l->acc = a;
          x.fresh(l->salt, l->salt ^ 0x80); x.rx.feed(a->hdr, FRAME_HDR);
          x.frames = op(8);
          continue;
        }
        if (rc == 0) { SIM_CHECK(x.s->IsClosed(), "C26", "not-closed", "the end of stream, but the socket isn't closed"); a->over = true; continue; }
        if (err.IsSet()) { SIM_CHECK(x.s->IsClosed(), "C26", "not-closed", "an error, but the socket isn't closed"); a->over = true; }
        continue;
      }
      x.step(false);
      if (x.s->IsClosed()) { Atomic at; a->over = true; progress = true; }
    }
    uint64_t total = 0; for (Acc* a : accs) total += a->end.rx.total;
    if (total != lastTotal) progress = true;
    lastTotal = total;
    pollSleep(idle, progress);
  }
  if (e->srvUp) { if (op(2)) e->srv->Close(); e->srvUp = false; }
}

void clientLife(Env* e, Client* c, int no) {
  End& x = c->end;
  uint8_t salt = (uint8_t)(c->id << 3 | no) + 1;
  x.fresh(salt ^ 0x80, salt);
  x.frames = op(8) + 1; x.maxLen = e->maxLen; x.empties = e->empties;
  int kind = (int)op(e->useServer ? 4 : 3);
  int target = kind == 3 ? T_SERVER : T_PEER;
  if (op(5) == 0) target = 2 + (int)op(T_KINDS - 2);
  Addr addr; int lfd = -1; int pfiber = -1; Peer* peer = nullptr; Life* life = nullptr;
  uint32_t epoch = 0;
  int plan = PEER_PASSIVE;
  bool connMayFail = faultEnabled(F_conn_reset);
  bool lossy = e->lossy;
  bool v6 = op(3) == 0;
  addr = v6 ? addr6((uint16_t)(0x100 + c->id * 8 + no), 100) : addr4(10, 0, 1, (uint8_t)(c->id * 8 + no), 100);
  struct Sh { bool stop = false, done = false; } *sh = new Sh();
  if (target == T_SERVER) {
    life = new Life();
    life->salt = salt; life->client = c->id; life->end = &x;
    { Atomic a; addr = e->srvAddr; epoch = life->epoch = e->epoch; if (!e->srvUp) connMayFail = true; e->lives[salt] = life; }
  } else if (target == T_PEER) {
    addr = v6 ? loop6(0) : loop4(0);
    lfd = peerListen(addr);
    if (op(3) == 0) plan = (int)op(PEER_PLANS);
    peer = new Peer(c->id, salt, salt ^ 0x80);
    peer->plan = plan; peer->frames = op(8); peer->maxLen = e->maxLen; peer->planAt = plan == PEER_STALL ? 1 + op(300) : op(2) ? 0 : op(2000);
    pfiber = spawn("peer", [e, lfd, peer, sh] {
      while (true) {
        int fd = peerAccept(lfd, 200 * MS);
        if (fd >= 0) { peer->fd = fd; peer->run(&e->w); break; }
        Atomic a; if (sh->stop) break;
      }
      Atomic a; sh->done = true;
    });
  } else ipMode(addr, target == T_REFUSE ? IP_REFUSE : target == T_TIMEOUT ? IP_TIMEOUT : target == T_UNREACH ? IP_UNREACH : IP_UNREACH_NOW);
  bool bad = target >= T_REFUSE;
  Error::Ptr err = End::stale(), old = err;
  bool ok = x.s->Connect(hostOf(addr), err);
  if (old.IsSet() && err == old) err.Clear();
  x.checkStates();
  bool connected = false; bool over = false;
  bool connFault = faultEnabled(F_conn_refused) || faultEnabled(F_conn_unreach) || faultEnabled(F_conn_timeout) || faultEnabled(F_conn_immediate_err) || faultEnabled(F_conn_reset) || (target == T_SERVER && (faultEnabled(F_accept_abort) || faultEnabled(F_send_fail) || faultEnabled(F_recv_fail)));
  if (!ok) {
    x.gotError(err, "connect");
    SIM_CHECK(target == T_UNREACH_NOW || target == T_REFUSE || target == T_UNREACH || faultEnabled(F_conn_immediate_err) || faultEnabled(F_socket_emfile) || connMayFail || target == T_SERVER, "C26", "bad-error",
      "client %d: a connect failed at once: %s", c->id, err->myMessage.c_str());
    over = true; probe("connect_sync_error");
  } else {
    SIM_CHECK(!err.IsSet(), "C26", "bad-error", "client %d: a started connect left an error", c->id);
    SIM_CHECK(!x.s->IsClosed(), "C26", "state", "client %d: closed after a started connect", c->id);
    SIM_CHECK(target != T_UNREACH_NOW, "C26", "no-error", "client %d: the error of a connect is lost", c->id);
    if (x.s->IsConnected()) { connected = true; probe("connected_sync"); }
  }
  int abortAt = op(5) == 0 ? (int)op(100) : -1;
  uint32_t idle = 0; uint64_t seen = 0; bool aborted = false, complete = false;
  uint64_t start = now();
  bool drained = false;
  while (!over && !x.s->IsClosed()) {
    if (abortAt >= 0 && abortAt-- == 0) { aborted = true; x.close(); probe(connected ? "abort" : "abort_connecting"); break; }
    if (target == T_SERVER && connected && x.seq == 0) x.send();
    x.step(false);
    if (!connected && (x.s->IsConnected() || x.wasConnected)) { connected = true; seen = ~0ull; }
    if (x.s->IsClosed()) break;
    // Everything has come both ways?
    {
      Atomic a;
      if (target == T_PEER) complete = connected && x.frames == 0 && peer->allSent && peer->rx.total == x.posted && x.rx.total == peer->sent && plan != PEER_FIN && plan != PEER_CLOSE && plan != PEER_RESET;
      else if (target == T_SERVER) { Acc* q = life->acc; complete = connected && q && !q->over && x.frames == 0 && q->end.frames == 0 && q->end.rx.total == x.posted && x.rx.total == q->end.posted; }
      if (complete) life ? life->complete = true : false;
    }
    if (complete) { probe("complete"); x.close(); break; }
    uint64_t total = x.rx.total + x.posted;
    pollSleep(idle, total != seen);
    seen = total;
    if (!faultsAreOff() && now() - start > 60 * SEC) { faultsOff(); drained = true; start = now(); }
    if (drained && now() - start > PROGRESS) {
      if (!connected) violation("C26", "no-outcome", "client %d: a connect never ends", c->id);
      violation("C26", "not-delivered", "client %d: posted %llu bytes, received %llu, the other side has received %llu", c->id, (unsigned long long)x.posted, (unsigned long long)x.rx.total,
        (unsigned long long)(peer ? peer->rx.total : life && life->acc ? life->acc->end.rx.total : 0));
    }
  }
  {
    Atomic a;
    bool epochOk = target != T_SERVER || (epoch == e->epoch && !connMayFail);
    if (!over && x.failed && !connected) {
      SIM_CHECK(bad || connFault || !epochOk || plan == PEER_RESET || plan == PEER_CLOSE, "C26", "bad-error", "client %d: a connect failed with %u", c->id, x.err);
      probe("connect_error");
    }
    if (bad) {
      SIM_CHECK(!connected, "C26", "no-error", "client %d: connected to nowhere", c->id);
      SIM_CHECK(aborted || x.failed, "C26", "no-error", "client %d: no error", c->id);
      if (x.failed && !connFault && !faultEnabled(F_socket_emfile)) {
        mg::box::ErrorCode want = mg::box::ErrorCodeFromErrno(target == T_REFUSE ? ECONNREFUSED : target == T_TIMEOUT ? ETIMEDOUT : target == T_UNREACH ? EHOSTUNREACH : ENETUNREACH);
        SIM_CHECK(x.err == (uint32_t)want, "C26", "error-code", "client %d: the connect failed with %u, but the reason was %u", c->id, x.err, (uint32_t)want);
        probe("connect_error_code");
      }
    } else if (connected) {
      bool breaks = lossy || !epochOk || plan == PEER_CLOSE || plan == PEER_RESET || (life && (!life->claimed && epoch != e->epoch));
      if (x.failed) SIM_CHECK(breaks || (plan == PEER_FIN), "C26", "bad-error", "client %d: a healthy connection failed with %u", c->id, x.err);
      if (x.eof) {
        SIM_CHECK(breaks || plan == PEER_FIN, "C26", "early-eof", "client %d: the end of stream of an open connection", c->id);
        if (peer && !lossy) SIM_CHECK(plan != PEER_RESET, "C26", "no-error", "client %d: the end of stream, but the peer has reset the connection", c->id);
        if (peer && !lossy && plan == PEER_FIN) SIM_CHECK(x.rx.total == peer->sent && peer->finSent, "C26", "lost-data", "client %d: the end of stream after %llu bytes, but %llu were sent", c->id, (unsigned long long)x.rx.total, (unsigned long long)peer->sent);
      }
    }
    sh->stop = true;
    if (life) life->over = true;
  }
  if (pfiber >= 0) join(pfiber);
  if (peer && complete && !lossy) SIM_CHECK(peer->eof || peer->err, "C26", "not-closed", "client %d: its peer didn't see the close", c->id);
  if (peer && complete && !lossy) SIM_CHECK(peer->eof, "C26", "bad-close", "client %d: its peer got an error instead of the end", c->id);
  if (lfd >= 0) peerClose(lfd);
  delete peer; delete sh;
}
void clientFiber(Env* e, Client* c) {
  for (int i = 0; i < c->lives; ++i) {
    stage("a life of a client");
    if (e->useServer && i == 0) waitUntil([&] { return e->srvUp; }, 50 * MS);
    clientLife(e, c, i);
    if (i > 0) probe("reused");
  }
  Atomic a; c->done = true; --e->liveClients;
}
void run(bool lossy) {
  uint64_t mark = allocMark();
  if (lossy) allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_conn_immediate_ok, F_partition, F_accept_abort, F_accept_err,
    F_conn_reset, F_conn_refused, F_conn_unreach, F_conn_timeout, F_conn_immediate_err, F_socket_emfile, F_sockopt_fail, F_bind_fail, F_send_fail, F_recv_fail});
  if (lossy) g_ioFail = failHook;
  else allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_conn_immediate_ok, F_partition});
  Env* e = new Env();
  e->lossy = lossy; e->w.lossy = lossy;
  netInit();
  g_net.acceptCritical = lossy;
  e->empties = choose(K_CFG, 3) == 0;
  static const uint32_t lens[] = {20, 300, 3000, 12000};
  e->maxLen = lens[choose(K_CFG, 4)];
  e->useServer = choose(K_CFG, 2);
  int n = 1 + (int)choose(K_CFG, 3);
  e->srv = new TCPServer();
  memset(&e->srvAddr, 0, sizeof(e->srvAddr)); e->srvAddr = loop4(9);
  e->liveClients = n;
  std::vector<int> fs;
  int sf = -1;
  if (e->useServer) sf = spawn("server", [e] { serverFiber(e); });
  for (int i = 0; i < n; ++i) {
    Client* c = new Client(i); c->lives = 1 + (int)op(3);
    { Atomic a; e->clients.push_back(c); }
  }
  for (Client* c : e->clients) fs.push_back(spawn("client", [e, c] { clientFiber(e, c); }));
  for (int f : fs) join(f);
  stage("the server must see all the closes");
  if (sf >= 0) {
    if (!eventually([&] { for (Acc* x : e->accs) if (!x->over) return false; return true; })) violation("C26", "no-eof", "a server side of a closed connection stays open");
    join(sf);
    for (auto& p : e->lives) {
      Life* l = p.second;
      if (l->complete && !lossy) SIM_CHECK(l->acc->end.eof && !l->acc->end.failed, "C26", "bad-close", "a gracefully closed connection ended with %u", l->acc->end.err);
    }
  }
  for (Acc* a : e->accs) delete a;
  for (auto& p : e->lives) delete p.second;
  for (Client* c : e->clients) delete c;
  delete e->srv;
  delete e;
  std::vector<int>().swap(fs);
  SIM_CHECK(openFdCount() == 0, "C26", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  checkLeaks(mark, "C26");
}
}
WORKLOAD(wn_sio, "C26", 4) { run(false); }
WORKLOAD(wn_sio_faults, "C26", 3) { run(true); }
