// Workloads over asynchronous SSL sockets.
#include "an_net.h"
#include "an_ssl.h"
#include "mg/aio/SSLSocket.h"
#include "mg/net/SSLStream.h"
#include "mg/net/SSLOpenSSL.h"
#include <cstring>
#include <map>

using namespace sim;
using namespace mg::aio;
using mg::net::SSLStream;

namespace {
enum { PEER_GARBAGE = PEER_PLANS };
constexpr int P_PLAIN = 5;        // The poster of the blocks before the encryption.

// What passes through the network in one direction.
struct Wire {
  bool plain = false, raw = false; uint64_t total = 0;
  uint8_t hdr[FRAME_HDR]; uint32_t n = 0, left = 0, records = 0;
  void feed(const char* who, int id, const uint8_t* d, size_t k) {
    if (raw) return;
    for (size_t i = 0; i < k; ++i) {
      ++total;
      if (left > 0) { if (--left == 0 && plain) plain = false; continue; }
      hdr[n++] = d[i];
      if (plain) {
        if (n == 1) SIM_CHECK(d[i] == 0xA7, "C23", "wire", "%s %d: wrong not encrypted data", who, id);
        if (n < FRAME_HDR) continue;
        SIM_CHECK(hdr[2] == P_PLAIN, "C23", "plaintext", "%s %d: a block of poster %d is sent without encryption", who, id, (int)hdr[2]);
        left = hdr[5] | (uint32_t)hdr[6] << 8; n = 0;
        if (left == 0) plain = false;
        continue;
      }
      if (n == 1) SIM_CHECK(d[i] >= 20 && d[i] <= 23, "C23", "plaintext", "%s %d: byte %u at %llu is sent instead of a TLS record", who, id, d[i], (unsigned long long)total - 1);
      if (n < 5) continue;
      left = (uint32_t)hdr[3] << 8 | hdr[4]; n = 0;
      SIM_CHECK(hdr[1] == 3 && hdr[2] <= 4 && left > 0 && left <= 16384 + 2048, "C23", "plaintext", "%s %d: not a TLS record is sent before %llu", who, id, (unsigned long long)total);
      ++records;
    }
  }
};
struct Env;
struct Link;
struct Life {
  Link* l; int index; int lfd = -1; Addr addr; uint8_t salt = 0; int plan = PEER_PASSIVE; bool startTls = false;
  Wire wire[2];                   // From the connecting side, from the accepting one.
  int corDir = -1, corKind = 0; uint64_t corAt = 0; uint32_t corLen = 1; bool corrupted = false;
};
struct TlsPeer {
  Link* l; Life* life; int id; Parser rx;
  int fd = -1; SSLStream* s = nullptr; bool server = false;
  uint64_t sent = 0; uint32_t seq = 0, frames = 0, maxLen = 600; uint64_t planAt = 0;
  bool eof = false, err = false, done = false, finSent = false, allSent = false, wasConnected = false;
  TlsPeer(Link* l, Life* life, int id) : l(l), life(life), id(id), rx("peer", id, "C23 C19", life->salt) {}
  ~TlsPeer() { delete s; }
  void run(World* w);
  void garbage(World* w);
};
struct Link {
  Env* e; World* w; Conn* c; int id;
  Conn* other = nullptr; bool pair = false;
  std::vector<Life*> lives; std::vector<TlsPeer*> peers;
  SslModel *mc = nullptr, *ms = nullptr; int agreed = 0; bool clientMay = false;
  bool connServer = false;        // The connecting side is the server of TLS.
  std::string host;
  TlsPeer* last() { return peers.empty() ? nullptr : peers.back(); }
  Life* life() { return lives.back(); }
  // Is the socket of the link a server?
  bool isServer(Conn* x) { return x == c ? connServer : !connServer; }
};
struct Env {
  World w;
  std::vector<Link*> links; std::vector<SslModel*> models;
  std::map<uint16_t, Life*> ports;
  bool clean, pair, empties = false, bcast = false, corrupt = false; uint32_t maxLen = 0;
};
uint16_t portOf(const Addr& a) { return ntohs(((const sockaddr_in*)&a.s)->sin_port); }
std::string endpointOf(const Addr& a) { char b[64]; snprintf(b, sizeof(b), "127.0.0.1:%u", portOf(a)); return b; }

void newLife(Link* l) {
  Life* f = new Life();
  f->l = l; f->index = (int)l->lives.size();
  f->addr = loop4(0);
  f->lfd = peerListen(f->addr);
  Atomic at;
  f->salt = (uint8_t)(l->id << 4 | (l->lives.size() & 3) << 2 | 1);
  l->c->saltOut = f->salt; l->c->rx.reset(f->salt ^ 2);
  if (!l->pair) {
    if (l->w->chaos) f->plan = (int)op(PEER_PLANS + 1);
    else { static const int ps[] = {PEER_PASSIVE, PEER_STALL, PEER_FIN, PEER_GARBAGE}; f->plan = ps[op(4)]; }
  }
  f->startTls = f->plan != PEER_GARBAGE && !l->connServer && choose(K_CFG, 3) == 0;
  f->wire[0].plain = f->wire[1].plain = f->startTls;
  f->wire[1].raw = f->plan == PEER_GARBAGE;
  if (l->e->corrupt && choose(K_FAULTARG, 2) && !f->startTls && f->plan != PEER_GARBAGE) {
    f->corDir = (int)choose(K_FAULTARG, 2); f->corKind = (int)choose(K_FAULTARG, 3); f->corLen = 1 + choose(K_FAULTARG, 100);
    f->corAt = choose(K_FAULTARG, 2) ? choose(K_FAULTARG, 1500) : choose(K_FAULTARG, 8000);
  }
  l->lives.push_back(f);
  l->e->ports[portOf(f->addr)] = f;
}
SSLSocketParams paramsOf(Link* l, Conn* c, bool startTls) {
  SSLSocketParams p;
  bool srv = l->isServer(c);
  p.mySSL = (srv ? l->ms : l->mc)->ctx.GetPointer();
  p.myDoEncrypt = !startTls;
  if (!srv && !l->host.empty()) p.myHostName = l->host.c_str();
  return p;
}
void setupConn(Link* l, Conn* c, Life* f) {
  c->ssl = true;
  c->rx.props = "C23 C19";
  bool srv = l->isServer(c);
  if (f->plan == PEER_GARBAGE) c->neverConnect = true;
  else if (!l->agreed && !f->startTls && (srv || !l->clientMay)) c->neverConnect = true;
  if (!l->agreed && !f->startTls) c->rxLimit = 0;
  if (!l->agreed || f->corDir >= 0) c->failExpected = true;
  if (f->startTls) c->quiet = c->direct = true;
}
void afterPlain(Link* l, Conn* c) {
  if (c->rx.next[P_PLAIN] == 0 || c->rx.partial()) return;
  // The other side of the connection waits for it.
  if (c != l->c) c->sendFrame(P_PLAIN, true);
  traceOp("socket %d: encrypt", c->id);
  ((SSLSocket*)c->sock)->Encrypt();
  probe("starttls");
  Atomic a;
  c->quiet = c->direct = false;
  if (!l->agreed) c->rxLimit = c->rx.total;
}
// Posts the next life of the connection.
void startLife(Env* e, Link* l, bool first) {
  Conn* c = l->c;
  c->reset();
  newLife(l);
  Life* f = l->life();
  SSLSocket* s = (SSLSocket*)c->sock;
  c->endpoint = endpointOf(f->addr);
  c->delayMs = op(4) == 0 ? 1 + op(50) : 0;
  c->budget = (int)op(e->clean ? 8 : 12);
  if (!first && e->w.chaos && l->agreed && !f->startTls && op(2)) {
    c->silent = true; c->budget = 0;
    { Atomic a; f->plan = PEER_PASSIVE; f->wire[1].raw = false; }
    e->w.silents = true;
    probe("silent");
  }
  int plan = f->plan;
  c->failExpected = (e->pair && !e->clean) || plan == PEER_CLOSE || plan == PEER_RESET || plan == PEER_FIN || plan == PEER_GARBAGE;
  setupConn(l, c, f);
  int life = c->lives;
  int kind = (int)op(first ? 4 : 3);
  if (kind == 3) {
    int fd = -1;
    for (int i = 0; i < 5 && fd < 0; ++i) fd = peerConnect(f->addr, NEVER);
    if (fd < 0) kind = 0;
    else { fdGive(fd); c->fd = fd; c->file = fdFile(fd); }
  }
  s->Open(paramsOf(l, c, f->startTls));
  if (first && !f->startTls && (op(3) == 0 || c->maxLen >= 60000)) {
    probe("send_before_post");
    c->sendFrame(4, false);
    // More than can be sent at once.
    if (c->maxLen >= 60000 && op(4)) { c->minLen = 60000; for (int i = 1 + (int)op(4); i > 0; --i) c->sendFrame(4, false); c->minLen = 0; probe("bulk"); }
    if (op(2)) c->recv(false);
  }
  c->postMs = nowMs();
  c->posted = true;
  switch (kind) {
  case 0: case 1: {
    TCPSocketConnectParams p;
    p.myEndpoint = c->endpoint;
    if (c->delayMs) p.myDelay = mg::box::TimeLimit(mg::box::TimeDuration(c->delayMs));
    c->minConnectMs = nowMs() + c->delayMs;
    s->PostConnect(p, c);
    break;
  }
  case 2: {
    c->isTask = true;
    c->wantConnect = e->clean || c->silent || op(4);
    s->PostTask(c);
    break;
  }
  case 3: s->PostWrap(c->fd, c); probe("wrap"); break;
  }
  bool wake = false;
  { Atomic a; if (c->lives == life) c->restarting = false; if (c->lives == life && c->posted && !c->deleted) { c->blocked = false; wake = kind == 2; if (wake) ++c->active; } }
  if (wake) { c->wakeup(); c->leave(); }
}
void TlsPeer::garbage(World* w) {
  uint8_t b[600];
  uint32_t parts = op(4);
  for (uint32_t i = 0; i < parts; ++i) {
    size_t n = 1 + op(sizeof(b));
    for (size_t j = 0; j < n; ++j) b[j] = (uint8_t)choose(K_FAULTARG, 256);
    // Sometimes looks like TLS.
    if (i == 0 && n > 5 && op(2)) { b[0] = (uint8_t)(20 + op(4)); b[1] = 3; b[2] = (uint8_t)op(4); b[3] = 0; b[4] = (uint8_t)op(256); if (op(2)) b[5] = (uint8_t)(op(3)); }
    // An alert.
    if (op(4) == 0) { n = 7; b[0] = 21; b[1] = 3; b[2] = 3; b[3] = 0; b[4] = 2; b[5] = (uint8_t)(op(2) + 1); b[6] = (uint8_t)op(256); probe("garbage_alert"); }
    long rc = peerSendSome(fd, b, n);
    if (rc <= 0) break;
    probe("garbage");
    if (op(2)) sleepNs((uint64_t)(1 + op(50)) * 20 * US);
  }
  if (parts == 0 || op(2)) { finSent = true; if (op(2)) peerShutdown(fd, SHUT_WR); else { if (op(2)) peerReset(fd); else peerClose(fd); fd = -1; } }
  while (fd >= 0) {
    long rc = peerRecv(fd, b, sizeof(b), NEVER);
    if (rc > 0) continue;
    break;
  }
  (void)w;
}
void TlsPeer::run(World* w) {
  int plan = life->plan;
  if (plan == PEER_GARBAGE) { garbage(w); if (fd >= 0) { int f = fd; fd = -1; peerClose(f); } done = true; return; }
  s = new SSLStream((server ? l->ms : l->mc)->ctx.GetPointer());
  bool plain = life->startTls;
  if (!server && !l->host.empty()) s->SetHostName(l->host.c_str());
  if (!plain) s->Connect();
  Bytes out; size_t outPos = 0;
  uint8_t buf[2048];
  uint32_t left = frames, steps = 0; uint8_t saltOut = life->salt ^ 2;
  uint64_t stallEnd = plan == PEER_STALL ? now() + planAt * MS : 0;
  bool planDone = false, shut = false;
  auto put = [&](uint8_t poster, uint32_t no) {
    Bytes b;
    makeFrame(b, saltOut, poster, no, inSize(maxLen));
    // By parts.
    size_t pos = 0;
    while (pos < b.size()) { size_t k = b.size() - pos; if (op(4) == 0) k = 1 + op((uint32_t)k); s->AppendAppInputCopy(b.data() + pos, k); pos += k; }
    sent += b.size();
  };
  auto pop = [&] {
    Buffer::Ptr h;
    s->PopAppOutput(h);
    for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) { Atomic a; rx.feed(b->myRData, b->myPos); }
  };
  for (;;) {
    ++steps;
    while (!plain && left > 0 && !s->IsClosingOrClosed() && out.size() - outPos < 3000 && (s->IsConnected() || op(4) == 0)) { put(0, seq++); --left; if (op(2)) break; }
    { Buffer::Ptr h; s->PopNetOutput(h); for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) out.insert(out.end(), b->myRData, b->myRData + b->myPos); }
    if (s->IsConnected()) wasConnected = true;
    if (outPos < out.size()) {
      size_t k = out.size() - outPos;
      if (op(4) == 0) k = 1 + op((uint32_t)k);
      long rc = peerSendSome(fd, out.data() + outPos, k);
      if (rc > 0) { outPos += (size_t)rc; if (outPos == out.size()) { out.clear(); outPos = 0; } }
      else if (errno != EAGAIN) { err = true; break; }
      if (op(4) == 0) sleepNs((uint64_t)(1 + op(50)) * 20 * US);
    }
    bool flushed = outPos == out.size();
    if (s->HasError()) {
      // The alert is on the way.
      if (!flushed && steps < 100000) { sleepNs(MS); continue; }
      err = true; break;
    }
    allSent = !plain && left == 0 && flushed && s->IsConnected();
    if (!planDone && (plan == PEER_FIN ? allSent : (plan == PEER_CLOSE || plan == PEER_RESET) && ((allSent && sent >= planAt) || (steps > 2 + planAt % 30 && op(4) == 0)))) {
      if (op(2)) sleepNs((uint64_t)(1 + op(40)) * 100 * US);
      planDone = true;
      if (plan == PEER_FIN) {
        finSent = true; countFault(F_peer_fin);
        if (op(2)) {
          s->Shutdown();
          probe("close_notify");
          Buffer::Ptr h; s->PopNetOutput(h);
          for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) out.insert(out.end(), b->myRData, b->myRData + b->myPos);
          while (outPos < out.size()) { long rc = peerSendSome(fd, out.data() + outPos, out.size() - outPos); if (rc > 0) outPos += (size_t)rc; else if (errno != EAGAIN) break; else sleepNs(MS); }
          if (op(2)) sleepNs((uint64_t)op(40) * MS);
        } else { countFault(F_tls_truncate); probe("truncated"); }
        shut = true;
        peerShutdown(fd, SHUT_WR);
      } else {
        if (plan == PEER_RESET) peerReset(fd); else { countFault(F_peer_fin); peerClose(fd); }
        fd = -1; done = true;
        return;
      }
    }
    if (stallEnd > now() && !w->draining && !w->ending) { countFault(F_peer_stall); sleepNs((uint64_t)(1 + op(20)) * MS); continue; }
    bool more = !shut && (!flushed || left > 0);
    long rc = peerRecv(fd, buf, 1 + op(sizeof(buf)), more ? (steps < 200 ? 200 * US : 5 * MS) : NEVER);
    if (rc > 0) {
      if (shut) continue;
      s->AppendNetInputCopy(buf, (uint64_t)rc);
      pop();
      if (plain && rx.next[P_PLAIN] > 0 && !rx.partial()) { put(P_PLAIN, 0); s->Connect(); plain = false; }
      continue;
    }
    if (rc == -2) continue;
    if (rc == 0) { eof = true; break; }
    err = true;
    break;
  }
  if (op(3) == 0) sleepNs((uint64_t)op(30) * MS);
  if (fd >= 0) { int f = fd; fd = -1; peerClose(f); }
  done = true;
}
void peerFiber(Env* e, Link* l) {
  World* w = &e->w;
  size_t i = 0;
  while (i < l->lives.size()) {
    Life* f = l->lives[i];
    int fd = peerAccept(f->lfd, 500 * MS);
    if (fd < 0) {
      Atomic a;
      if (i + 1 < l->lives.size()) ++i;
      else if (w->ending && (l->c->deleted || l->c->closed)) break;
      continue;
    }
    if (l->pair) {
      fdGive(fd);
      Conn* o = new Conn(w, 10 + l->id);
      o->sock = new SSLSocket(*w->core);
      o->reset();
      o->rx.reset(f->salt); o->saltOut = f->salt ^ 2; o->fd = fd; o->file = fdFile(fd);
      o->empties = l->c->empties; o->maxLen = l->c->maxLen;
      o->budget = (int)op(8); o->postMs = nowMs();
      // The client can end at any time.
      o->failExpected = w->chaos || w->ending;
      o->afterRecv = l->c->afterRecv;
      { Atomic a; l->other = o; w->conns.push_back(o); o->posted = o->restarting = true; }
      setupConn(l, o, f);
      int life = o->lives;
      ((SSLSocket*)o->sock)->Open(paramsOf(l, o, f->startTls));
      o->sock->PostWrap(fd, o);
      { Atomic a; o->restarting = false; if (o->lives == life && o->posted && !o->deleted) o->blocked = false; }
      return;
    }
    TlsPeer* p = new TlsPeer(l, f, l->id);
    p->fd = fd; p->server = !l->connServer; p->frames = op(6); p->maxLen = l->c->maxLen;
    p->planAt = f->plan == PEER_STALL ? 1 + op(300) : op(2) ? 0 : op(3000);
    { Atomic a; l->peers.push_back(p); }
    probe("accepted");
    p->run(w);
    ++i;
    while (i == l->lives.size()) {
      // The next life is yet to come or not.
      { Atomic a; if (w->ending && (l->c->deleted || (l->c->closed && !l->c->posted))) break; }
      sleepNs(20 * MS);
    }
  }
  sslThreadEnd();
}
bool linkDone(Env* e, Link* l) {
  Conn* c = l->c;
  // The silent garbage is endless.
  if (!e->pair && l->last() && l->last()->life->plan == PEER_GARBAGE) return c->closed || !l->last()->finSent;
  if (!l->agreed) {
    // Both sides have to notice.
    if (e->pair) return l->other && c->closed && l->other->closed;
    return c->closed;
  }
  if (e->pair) {
    Conn* o = l->other;
    return o && c->connected && o->connected && c->delivered() == o->postedBytes && o->delivered() == c->postedBytes &&
      c->onSendBytes == c->postedBytes && o->onSendBytes == o->postedBytes && !c->quiet && !o->quiet;
  }
  TlsPeer* p = l->last();
  if (!p) return false;
  if (p->life->plan == PEER_FIN) return c->closed && c->delivered() == p->sent && p->finSent;
  return c->connected && p->allSent && c->delivered() == p->sent && p->rx.total == c->postedBytes && c->onSendBytes == c->postedBytes && !c->quiet;
}
// Things promised at any time, also in the chaos.
bool connSettled(Link* l, Conn* c) {
  if (!c->posted || c->closed) return true;
  if (c->closeAsked || c->deleted) return false;
  if (c->wakeInv > c->evStart) return false;
  if (c->errors || c->failFile) return false;           // Must close.
  if (c->deadline != UINT64_MAX) return false;          // Must be executed.
  if (c->isTask && !c->wantConnect) return true;
  Life* f = l->life();
  if (f->corrupted || f->plan == PEER_GARBAGE) return true;
  Conn* o = l->pair ? (c == l->c ? l->other : l->c) : nullptr;
  TlsPeer* p = l->last();
  bool alive = l->pair ? o && !o->closed && !o->shutAsked && !o->closeAsked && !o->deleted : p && !p->done;
  if (c->shutAsked) return !alive || true;
  if (!l->agreed && alive) return false;
  if (!c->connected && alive) return false;
  // Whatever is sent to a living connection must come.
  if (alive && p && p->life == f && f->plan == PEER_PASSIVE && !f->startTls && l->agreed && !c->paused &&
      !(p->allSent && c->delivered() == p->sent && p->rx.total == c->postedBytes)) return false;
  return true;
}
void checkName(Link* l, Conn* c) {
  if (!l->isServer(c) || c->quiet || l->host.empty()) return;
  std::string h = ((SSLSocket*)c->sock)->GetHostName();
  SIM_CHECK(h == l->host, "C23", "host-name", "socket %d: the host name is '%s' instead of '%s'", c->id, h.c_str(), l->host.c_str());
  probe("host_name");
}
void runSsl(bool clean) {
  sslSeed(choose(K_CFG, 65536));
  sslWarmThreads(14);
  uint64_t mark = allocMark();
  Env* e = new Env();
  World& w = e->w;
  e->clean = clean; e->pair = choose(K_CFG, 2);
  w.chaos = !clean;
  w.lossy = !clean && choose(K_CFG, 2);
  w.reuse = !e->pair && choose(K_CFG, 2);
  e->corrupt = !clean && choose(K_CFG, 2);
  if (w.lossy) allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition,
    F_conn_reset, F_conn_refused, F_conn_unreach, F_conn_timeout, F_conn_immediate_err, F_socket_emfile, F_sockopt_fail, F_send_fail, F_recv_fail});
  else allowFaults({F_net_delay, F_net_stall, F_recv_split, F_short_send, F_short_recv, F_send_eagain, F_epoll_eintr, F_uring_late, F_uring_reorder, F_cancel_race, F_conn_immediate_ok, F_partition});
  if (w.lossy) w.failIo();
  netInit();
  w.core = new IOCore();
  w.core->Start(1 + choose(K_CFG, 3));
  int nlinks = 1 + (int)choose(K_CFG, 2);
  static const uint32_t ls[] = {300, 3000, 30, 20000};
  uint32_t maxLen = ls[choose(K_CFG, 4)];
  if (choose(K_CFG, 8) == 0) maxLen = 60000;
  e->maxLen = maxLen; e->empties = choose(K_CFG, 3) == 0; e->bcast = choose(K_CFG, 3) == 0;
  g_wire = [e](const Addr& from, const Addr& to, uint8_t* d, size_t n) {
    Atomic at;
    auto it = e->ports.find(portOf(to)); int dir = 0;
    if (it == e->ports.end()) { it = e->ports.find(portOf(from)); dir = 1; }
    if (it == e->ports.end()) return;
    Life* f = it->second; Wire& x = f->wire[dir];
    uint64_t begin = x.total;
    if (x.raw) return;
    x.feed(dir ? "the accepting side" : "the connecting side", f->l->id, d, n);
    if (f->corDir == dir && !f->corrupted && x.total > f->corAt) {
      size_t off = f->corAt > begin ? (size_t)(f->corAt - begin) : 0;
      f->corrupted = true; countFault(F_tls_corrupt);
      if (f->corKind == 0) d[off] = (uint8_t)(d[off] ^ (1u << choose(K_FAULTARG, 8)));
      else for (size_t i = off; i < n && i < off + f->corLen; ++i) d[i] = f->corKind == 1 ? (uint8_t)choose(K_FAULTARG, 256) : 0;
      traceOp("link %d: direction %d is corrupted at %llu, kind %d", f->l->id, dir, (unsigned long long)f->corAt, f->corKind);
    }
  };
  w.restart = [e](Conn* c) { for (Link* l : e->links) if (l->c == c) { startLife(e, l, false); return; } };
  w.onConnect = [e](Conn* c) {
    for (Link* l : e->links) if (l->c == c || l->other == c) {
      if (!c->quiet) checkName(l, c);
      else if (c == l->c) c->sendFrame(P_PLAIN, true);
      return;
    }
  };
  std::vector<int> fibers, actors;
  int nctx = 1 + (int)choose(K_CFG, nlinks);
  for (int i = 0; i < nctx; ++i) {
    SslModel *c = new SslModel(), *s = new SslModel(); bool ok;
    sslRandomPair(*c, *s, ok);
    e->models.push_back(c); e->models.push_back(s);
  }
  for (int i = 0; i < nlinks; ++i) {
    Link* l = new Link();
    l->e = e; l->w = &w; l->id = i; l->pair = e->pair;
    int k = (int)choose(K_CFG, nctx);
    l->mc = e->models[k * 2]; l->ms = e->models[k * 2 + 1];
    l->agreed = sslAgree(*l->mc, *l->ms);
    probe(l->agreed ? "agree" : "disagree");
    if (!l->agreed) { SslModel any = *l->ms; any.trust = -1; l->clientMay = sslAgree(*l->mc, any) == 13; }
    l->connServer = choose(K_CFG, 3) == 0;
    if (choose(K_CFG, 2)) l->host = "host" + std::to_string(i) + ".name";
    Conn* c = new Conn(&w, i);
    l->c = c; c->sock = new SSLSocket(*w.core); c->maxLen = maxLen; c->empties = e->empties;
    c->afterRecv = [l](Conn* x) { afterPlain(l, x); };
    { Atomic a; e->links.push_back(l); w.conns.push_back(c); }
  }
  for (Link* l : e->links) {
    startLife(e, l, true);
    fibers.push_back(spawn("peer", [e, l] { peerFiber(e, l); }));
  }
  int nactors = 1 + (int)op(3);
  for (int k = 0; k < nactors; ++k)
    actors.push_back(spawn("actor", [e, k] {
      World& w = e->w;
      int n = 1 + (int)op(12);
      while (n-- > 0) {
        Conn* c; { Atomic a; c = w.conns[op((uint32_t)w.conns.size())]; }
        if (k == 0 && e->bcast && op(4) == 0) broadcast(&w, e->maxLen, e->empties);
        else if (w.chaos && op(12) == 0) {
          bool d = false;
          { Atomic a; if (!c->deleted && !c->blocked && c->active == 0) d = c->deleted = true; }
          if (d) { probe("delete_any_time"); c->del(); }
        } else if (c->enter()) { c->randomAction(k, false); c->leave(); }
        if (op(2)) sleepNs((uint64_t)(1 + op(50)) * (op(2) ? 10 : 1000) * US);
      }
      sslThreadEnd();
    }));
  for (int f : actors) join(f);
  stage("everything must be delivered or reported");
  auto wakeAllConns = [&] {
    for (size_t i = 0;; ++i) {
      Conn* c;
      { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; }
      if (c->paused && c->enter()) { c->recv(false); c->leave(); }
    }
  };
  if (clean) {
    // A server side can appear late.
    if (e->pair) {
      bool ok = eventually([&] { for (Link* l : e->links) if (!l->other || l->other->blocked) { if (l->other && l->other->closed) continue; return false; } return true; });
      if (!ok) { for (Link* l : e->links) if (!l->other) violation("C21", "no-connect", "never connected: %s", l->c->state()); }
    }
    { Atomic a; w.draining = true; }
    wakeAllConns();
    bool ok = eventually([&] { for (Link* l : e->links) if (!linkDone(e, l) && !(l->c->closed && l->peers.size() > 1)) return false; return true; });
    if (!ok) for (Link* l : e->links) if (!linkDone(e, l)) {
      std::string a = l->c->state();
      TlsPeer* p = l->last();
      if (!l->agreed) violation("C23", "not-refused", "the sides can't agree, but the connection isn't closed: %s %s", a.c_str(), l->other ? l->other->state() : "");
      if (p && !l->c->connected) violation("C23 C20", "no-handshake", "never connected: %s, the peer plan %d connected %d error %d", a.c_str(), p->life->plan, p->wasConnected, p->err);
      if (p) violation("C23 C19", "not-delivered", "data isn't delivered: %s, the peer sent %llu all %d, received %llu, plan %d, eof %d err %d", a.c_str(), (unsigned long long)p->sent, p->allSent, (unsigned long long)p->rx.total, p->life->plan, p->eof, p->err);
      if (l->other && (!l->c->connected || !l->other->connected)) violation("C23 C20", "no-handshake", "never connected: %s %s", a.c_str(), l->other->state());
      if (l->other) violation("C23 C19", "not-delivered", "data isn't delivered: %s %s", a.c_str(), l->other->state());
      violation("C23 C21", "no-connect", "no peer: %s", a.c_str());
    }
    // Somebody has to complain.
    for (Link* l : e->links) if (!l->agreed && l->other)
      SIM_CHECK(l->c->errors || l->other->errors, "C23", "silent-refusal", "the sides can't agree, but no error is reported: %s", l->c->state());
  } else if (w.silents ? op(8) : op(2)) {
    // They have nothing to do. Even if something was asked from them before their reopening.
    if (w.silents) {
      if (op(2)) sleepNs((uint64_t)op(500) * MS);
      Atomic a;
      for (Conn* c : w.conns) c->silent = false;
    }
    { Atomic a; w.draining = true; }
    wakeAllConns();
    auto settled = [&] { for (Link* l : e->links) { if (!connSettled(l, l->c)) return false; if (l->other && !connSettled(l, l->other)) return false; } return true; };
    if (!eventually(settled)) for (Link* l : e->links) for (Conn* c : {l->c, l->other}) if (c && !connSettled(l, c)) {
      TlsPeer* p = l->last();
      violation(c->closeAsked || c->shutAsked ? "C22 C20" : "C20 C23", "stuck", "a connection is stuck: %s, the peer eof %d err %d done %d, agreed %d", c->state(), p ? p->eof : -1, p ? p->err : -1, p ? p->done : -1, l->agreed);
    }
  }
  stage("closing");
  { Atomic a; w.ending = true; for (Conn* c : w.conns) c->failExpected = true; }
  for (size_t i = 0;; ++i) {
    Conn* c;
    { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; c->failExpected = true; if (c->deleted) continue; }
    if (op(3)) { if (c->enter()) { c->close(4, false); c->leave(); } if (op(2)) sleepNs(op(20) * MS); }
  }
  for (size_t i = 0;; ++i) {
    Conn* c; bool d = false;
    { Atomic a; if (i >= w.conns.size()) break; c = w.conns[i]; }
    // A restart can be going on.
    if (!eventually([&] { return !c->restarting; })) violation("C23 C20", "restart-hang", "a close during a restart is not reported");
    { Atomic a; if (!c->deleted) d = c->deleted = true; }
    if (d) c->del();
  }
  auto waitClosed = [&] {
    bool ok = eventually([&] { for (Conn* c : w.conns) if (c->deleted && c->posted && !c->closed) return false; return true; });
    if (!ok) for (Conn* c : w.conns) if (c->deleted && c->posted && !c->closed) violation("C22 C20", "not-closed", "a closed socket never got its close event: %s", c->state());
  };
  waitClosed();
  stage("peers must see the end");
  bool ok = eventually([&] { for (Link* l : e->links) for (TlsPeer* p : l->peers) if (!p->done) return false; return true; });
  if (!ok) violation("C22 C18", "peer-open", "a peer doesn't see the end of a closed socket");
  stage("the end");
  for (int f : fibers) join(f);
  // A server side could appear late.
  for (Conn* c : w.conns) if (!c->deleted) { c->deleted = true; c->del(); }
  waitClosed();
  for (Link* l : e->links) {
    TlsPeer* p = l->last();
    if (p && p->life == l->life()) SIM_CHECK(p->rx.total <= l->c->postedBytes, "C23 C19", "too-much", "the peer got %llu bytes of %llu", (unsigned long long)p->rx.total, (unsigned long long)l->c->postedBytes);
    if (p && !l->agreed && !p->life->startTls) SIM_CHECK(p->rx.total == 0, "C23", "data-without-trust", "the peer got %llu bytes, although the sides can't agree", (unsigned long long)p->rx.total);
  }
  SIM_CHECK(w.core->WaitEmpty() == 0, "C18", "wait-empty", "endless WaitEmpty() failed");
  w.core->Stop();
  w.dead = true;
  g_wire = nullptr;
  delete w.core;
  for (Link* l : e->links) {
    for (Life* f : l->lives) { peerClose(f->lfd); delete f; }
    for (TlsPeer* p : l->peers) { if (p->fd >= 0) peerClose(p->fd); delete p; }
  }
  for (Conn* c : w.conns) { c->freeHeld(); delete c; }
  for (void* p : w.held) free(p);
  for (Link* l : e->links) delete l;
  for (SslModel* m : e->models) delete m;
  delete e;
  std::vector<int>().swap(fibers); std::vector<int>().swap(actors);
  sslThreadEnd();
  SIM_CHECK(openFdCount() == 0, "C22 C18", "fd-leak", "descriptors are still open:%s", describeOpenFds());
  checkLeaks(mark, "C22 C16");
}
}
WORKLOAD(wn_ssl_clean, "C23 C29", 4) { runSsl(true); }
WORKLOAD(wn_ssl_chaos, "C23 C29", 4) { runSsl(false); }
