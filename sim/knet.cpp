// Simulated kernel: TCP sockets, epoll, eventfd, name resolution.
// The behaviour follows Linux (net/ipv4/tcp.c, fs/eventpoll.c) where users can see it.
#include "knet.h"
#include "rt_int.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

#define PC __builtin_return_address(0)

namespace sim {


NetCfg g_net;
void (*g_fileHook)(File* f);
static bool g_netReady;
static int g_noFault;          // Inside of the harness' own peers.
static bool nfault(Fault f) { return !g_noFault && fault(f); }
struct NoFault { NoFault() { ++g_noFault; } ~NoFault() { --g_noFault; } };

template<typename T> static T* knew() { return new (malloc(sizeof(T))) T(); }
template<typename T> using Deq = std::deque<T, MA<T>>;

// ------------------------------------------------------------------ files ----
enum { FD_BASE = 100, FD_MAX = 400 };
enum { K_SOCK, K_EPOLL, K_EVENTFD, K_RING, K_TEXT };
struct Epoll;
struct EpItem { File* f; int fd; Epoll* ep; epoll_event ev; bool ready; VC vc; };
struct File {
  int kind; int refs; int fd; bool nonblock; uint64_t id;
  Vec<EpItem*> items;
};
struct Epoll : File { Deq<EpItem*> ready; Vec<EpItem*> all; };
struct EventFd : File { uint64_t value; VC vc; };
struct RingFile : File { void* ring; };
struct TextFile : File { const char* text; size_t pos; };
struct Seg { uint64_t at; Vec<uint8_t> data; bool fin, rst; int rstErr; };
enum { S_NEW, S_LISTEN, S_CONNECTING, S_ESTABLISHED, S_CLOSED };
struct KSock : File {
  int family, state;
  bool bound; Addr local, remote;
  bool rdShut, wrShut, finIn, finOut, noSpace, pressure, dead /* no fd */, failed;
  int err;
  KSock* peer;
  // Outgoing data of this side until it is in the peer's receive queue.
  Deq<Seg> out; size_t outBytes; uint64_t lastAt; bool pumpPending, windowWait;
  Deq<uint8_t> rx;
  uint32_t sndbuf, rcvbuf;
  uint64_t stallUntil; uint64_t resetAt;
  VC vc;                       // Of the outgoing data.
  // Listener.
  Deq<KSock*> acceptQ; int backlog; VC acceptVc;
  KSock* listener;             // Where it is queued for accept.
  // Connecting.
  int connectErr; uint64_t connSeq;
  int noDelay, keepAlive, keepIdle, keepIntvl, keepCnt, userTimeout, v6only;
  bool mine;                   // Of a harness peer.
  uint64_t nsent, nrecvd;
};
static File* g_fds[FD_MAX];
static bool g_fdMine[FD_MAX];
static Vec<KSock*> g_socks;
static uint64_t g_fileSeq;
static int g_lastAccepted = -1;
static uint16_t g_nextPort = 40000;

static int allocFd(File* f) {
  for (int i = FD_BASE; i < FD_MAX; ++i) {
    if (g_fds[i]) continue;
    g_fds[i] = f; g_fdMine[i] = g_noFault > 0; f->fd = i; ++f->refs;
    return i;
  }
  violation("*", "fd-exhausted", "%d descriptors are open at the same time, the program lost them", FD_MAX - FD_BASE);
}
File* fileGet(int fd) { return fd >= FD_BASE && fd < FD_MAX ? g_fds[fd] : nullptr; }
static bool isSimFd(int fd) { return inRun() && fd >= FD_BASE; }
KSock* fileSock(File* f) { return f && f->kind == K_SOCK ? (KSock*)f : nullptr; }
bool fileIsEventfd(File* f) { return f && f->kind == K_EVENTFD; }
void fileRef(File* f) { ++f->refs; }
template<typename T> static T* newFile(int kind) {
  T* f = knew<T>();
  f->kind = kind; f->refs = 0; f->fd = -1; f->nonblock = false; f->id = ++g_fileSeq;
  return f;
}
int newRingFd(void* ring) { RingFile* r = newFile<RingFile>(K_RING); r->ring = ring; return allocFd(r); }
static bool fail(int e) { errno = e; return false; }
static int failN(int e) { errno = e; return -1; }
int openFdCount() {
  int n = 0;
  for (int i = FD_BASE; i < FD_MAX; ++i) if (g_fds[i] && !g_fdMine[i]) ++n;
  return n;
}
const char* describeOpenFds() {
  static char b[512];
  size_t o = 0; b[0] = 0;
  static const char* const kinds[] = {"socket", "epoll", "eventfd", "ring", "text"};
  for (int i = FD_BASE; i < FD_MAX && o < sizeof(b) - 40; ++i)
    if (g_fds[i] && !g_fdMine[i]) o += (size_t)snprintf(b + o, sizeof(b) - o, " %d:%s", i, kinds[g_fds[i]->kind]);
  return b;
}

// ------------------------------------------------------------------ masks ----
static size_t sndFree(KSock* s) {
  if (s->pressure) return 0;
  return s->outBytes < s->sndbuf ? s->sndbuf - s->outBytes : 0;
}
static bool writable(KSock* s) { return !s->pressure && s->outBytes < s->sndbuf && s->sndbuf - s->outBytes >= s->outBytes / 2; }
static uint32_t sockMask(KSock* s) {
  if (s->state == S_LISTEN) return s->acceptQ.empty() ? 0 : (EPOLLIN | EPOLLRDNORM);
  uint32_t m = 0;
  bool closed = s->state == S_NEW || s->state == S_CLOSED;
  if (closed || (s->rdShut && s->wrShut) || (s->finIn && s->wrShut)) m |= EPOLLHUP;
  if (s->rdShut || s->finIn || s->state == S_CLOSED) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
  if (s->state != S_CONNECTING) {
    if (!s->rx.empty()) m |= EPOLLIN | EPOLLRDNORM;
    if (s->wrShut || s->state == S_CLOSED) m |= EPOLLOUT | EPOLLWRNORM;
    else if (writable(s)) m |= EPOLLOUT | EPOLLWRNORM;
    else s->noSpace = true;
  }
  if (s->err) m |= EPOLLERR;
  return m;
}
static uint32_t fileMask(File* f);
static bool epollHasReady(Epoll* ep) {
  while (!ep->ready.empty()) {
    EpItem* it = ep->ready.front();
    if (fileMask(it->f) & (it->ev.events | EPOLLERR | EPOLLHUP)) return true;
    it->ready = false;
    ep->ready.pop_front();
  }
  return false;
}
static uint32_t fileMask(File* f) {
  switch (f->kind) {
  case K_SOCK: return sockMask((KSock*)f);
  case K_EVENTFD: { EventFd* e = (EventFd*)f; return (e->value ? EPOLLIN : 0) | (e->value < UINT64_MAX - 1 ? EPOLLOUT : 0); }
  case K_EPOLL: return epollHasReady((Epoll*)f) ? EPOLLIN : 0;
  default: return 0;
  }
}
// A wake up with the events (0: any).
static void wakeFile(File* f, uint32_t key) {
  for (EpItem* it : f->items) {
    if (key && !(key & (it->ev.events | EPOLLERR | EPOLLHUP))) continue;
    if (!it->ready) { it->ready = true; it->ep->ready.push_back(it); }
    wakeAll(it->ep, W_FD);
  }
  wakeAll(f, W_FD);
  if (g_fileHook) g_fileHook(f);
}

static const bool g_syncOn = (g_waitSync = true);

// ---------------------------------------------------------------- network ----
void netInit() {
  if (g_netReady) return;
  g_netReady = true;
  static const uint32_t bufs[] = {65536, 4096, 512, 100000000, 2048, 16384, 100000000};
  g_net.sndbuf = bufs[choose(K_CFG, 7)];
  g_net.rcvbuf = bufs[choose(K_CFG, 7)];
  static const uint64_t lats[] = {20 * US, 200 * US, 1 * MS, 30 * MS, 2 * US};
  g_net.latency = lats[choose(K_CFG, 5)];
  static const uint32_t jit[] = {0, 2, 20};
  g_net.jitter = jit[choose(K_CFG, 3)];
  static const uint32_t mss[] = {1460, 100, 65536, 300};
  g_net.mss = mss[choose(K_CFG, 4)];
}
static uint64_t latency() {
  netInit();
  uint64_t l = g_net.latency;
  if (g_net.jitter) l += l * choose(K_NET, 4) * g_net.jitter / 4;
  return l;
}
static void resetSock(KSock* s, int err, const char* why) {
  // The connection is dead for this side.
  if (s->state == S_CLOSED || s->state == S_NEW) return;
  traceOp("net: socket %llu fd %d is reset: %s (%s)", (unsigned long long)s->id, s->fd, strerror(err), why);
  s->state = S_CLOSED;
  s->err = s->finIn ? EPIPE : err;
  s->failed = true;
  s->rdShut = s->wrShut = true;
  s->out.clear(); s->outBytes = 0;
  wakeFile(s, 0);
}
static void pumpTimer(void* a, uint64_t);
static void pump(KSock* s);
static void schedulePump(KSock* s, uint64_t at) {
  if (s->pumpPending) return;
  s->pumpPending = true;
  if (s->stallUntil > at) at = s->stallUntil;
  addTimer(at, pumpTimer, s, 0);
}
static void pumpTimer(void* a, uint64_t) { KSock* s = (KSock*)a; s->pumpPending = false; pump(s); }
static void pushSeg(KSock* s, Seg&& g) {
  uint64_t at = now() + latency();
  if (nfault(F_net_delay)) { uint64_t d = (100 * US) << choose(K_FAULTARG, 14); at += d; noteDelay(d); }
  if (nfault(F_net_stall) || nfault(F_partition)) {
    // Nothing passes in both directions for a while.
    uint64_t until = now() + (10 * MS << choose(K_FAULTARG, 13));
    noteDelay(until - now());
    if (until > s->stallUntil) s->stallUntil = until;
    if (s->peer && until > s->peer->stallUntil) s->peer->stallUntil = until;
  }
  if (at < s->lastAt) at = s->lastAt;
  s->lastAt = at;
  g.at = at;
  s->out.push_back(std::move(g));
  schedulePump(s, at);
}
static void sendRst(KSock* s, int err) {
  if (!s->peer) return;
  // Not transmitted data is dropped, in flight is not.
  Seg g; g.fin = false; g.rst = true; g.rstErr = err;
  pushSeg(s, std::move(g));
}
static void checkSpace(KSock* s) {
  if (s->noSpace && writable(s)) { s->noSpace = false; wakeFile(s, EPOLLOUT | EPOLLWRNORM); }
}
// Moves what has arrived into the receive queue of the peer.
static void pump(KSock* s) {
  KSock* p = s->peer;
  if (!p) { s->out.clear(); s->outBytes = 0; return; }
  if (s->stallUntil > now()) { if (!s->out.empty()) schedulePump(s, s->stallUntil); return; }
  s->windowWait = false;
  while (!s->out.empty()) {
    Seg& g = s->out.front();
    if (g.at > now()) { schedulePump(s, g.at); break; }
    if (g.rst) {
      int e = g.rstErr;
      s->out.clear(); s->outBytes = 0;
      resetSock(p, e, "rst");
      return;
    }
    if (p->state == S_CLOSED) {
      s->outBytes -= g.data.size();
      bool fin = g.fin;
      s->out.pop_front();
      if (!fin && !p->failed) { Seg r; r.fin = false; r.rst = true; r.rstErr = ECONNRESET; p->failed = true; pushSeg(p, std::move(r)); }
      continue;
    }
    if (g.fin) {
      s->out.pop_front();
      p->finIn = true;
      traceOp("net: FIN arrived to socket %llu fd %d", (unsigned long long)p->id, p->fd);
      if (p->dead && p->finOut) p->state = S_CLOSED;
      wakeFile(p, p->wrShut ? 0 : (EPOLLIN | EPOLLRDNORM | EPOLLRDHUP));
      continue;
    }
    // Data.
    if (p->rdShut || p->dead) {
      // Nobody can ever read it.
      traceOp("net: data for a closed socket %llu fd %d", (unsigned long long)p->id, p->fd);
      s->outBytes -= g.data.size();
      s->out.pop_front();
      // What is in flight goes before the reset.
      sendRst(p, ECONNRESET);
      p->state = S_CLOSED; p->failed = true;
      if (!p->dead) { p->err = p->finIn ? EPIPE : ECONNRESET; p->rdShut = p->wrShut = true; wakeFile(p, 0); }
      continue;
    }
    if (p->rx.size() >= p->rcvbuf) { s->windowWait = true; break; }
    for (uint8_t b : g.data) p->rx.push_back(b);
    traceOp("net: %zu bytes arrived to socket %llu fd %d", g.data.size(), (unsigned long long)p->id, p->fd);
    s->outBytes -= g.data.size();
    s->out.pop_front();
    wakeFile(p, EPOLLIN | EPOLLRDNORM);
  }
  checkSpace(s);
}
static void pressureEnd(void* a, uint64_t) { KSock* s = (KSock*)a; s->pressure = false; checkSpace(s); }
static void injectedReset(void* a, uint64_t e) {
  KSock* s = (KSock*)a;
  if (faultsAreOff()) return;
  KSock* p = s->peer;
  if (s->state != S_ESTABLISHED) return;
  countFault(F_conn_reset);
  traceOp("fault conn_reset of socket %llu", (unsigned long long)s->id);
  resetSock(s, (int)e, "network");
  if (p) resetSock(p, (int)e, "network");
}
static KSock* newSock(int family) {
  KSock* s = newFile<KSock>(K_SOCK);
  netInit();
  s->family = family; s->state = S_NEW; s->sndbuf = g_net.sndbuf; s->rcvbuf = g_net.rcvbuf;
  s->noDelay = -1; s->mine = g_noFault > 0;
  memset(&s->local, 0, sizeof(s->local)); memset(&s->remote, 0, sizeof(s->remote));
  s->local.s.ss_family = (sa_family_t)family;
  s->local.len = family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
  g_socks.push_back(s);
  return s;
}
static uint16_t portOf(const Addr& a) { return ntohs(a.s.ss_family == AF_INET ? ((sockaddr_in*)&a.s)->sin_port : ((sockaddr_in6*)&a.s)->sin6_port); }
static void setPort(Addr& a, uint16_t p) { (a.s.ss_family == AF_INET ? ((sockaddr_in*)&a.s)->sin_port : ((sockaddr_in6*)&a.s)->sin6_port) = htons(p); }
static bool isAny(const Addr& a) {
  if (a.s.ss_family == AF_INET) return ((sockaddr_in*)&a.s)->sin_addr.s_addr == 0;
  static const in6_addr z = {};
  return memcmp(&((sockaddr_in6*)&a.s)->sin6_addr, &z, sizeof(z)) == 0;
}
static bool sameIp(const Addr& a, const Addr& b) {
  if (a.s.ss_family != b.s.ss_family) return false;
  if (a.s.ss_family == AF_INET) return ((sockaddr_in*)&a.s)->sin_addr.s_addr == ((sockaddr_in*)&b.s)->sin_addr.s_addr;
  return memcmp(&((sockaddr_in6*)&a.s)->sin6_addr, &((sockaddr_in6*)&b.s)->sin6_addr, 16) == 0;
}
Addr addr4(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint16_t port) {
  Addr r; memset(&r, 0, sizeof(r));
  sockaddr_in* s = (sockaddr_in*)&r.s; s->sin_family = AF_INET; s->sin_port = htons(port);
  s->sin_addr.s_addr = htonl(((uint32_t)a << 24) | ((uint32_t)b << 16) | ((uint32_t)c << 8) | d);
  r.len = sizeof(*s);
  return r;
}
Addr addr6(uint16_t last, uint16_t port) {
  Addr r; memset(&r, 0, sizeof(r));
  sockaddr_in6* s = (sockaddr_in6*)&r.s; s->sin6_family = AF_INET6; s->sin6_port = htons(port);
  s->sin6_addr.s6_addr[14] = (uint8_t)(last >> 8); s->sin6_addr.s6_addr[15] = (uint8_t)last;
  r.len = sizeof(*s);
  return r;
}
static const char* addrStr(const Addr& a) {
  static char b[80]; char ip[64] = "?";
  if (a.s.ss_family == AF_INET) inet_ntop(AF_INET, &((sockaddr_in*)&a.s)->sin_addr, ip, sizeof(ip));
  else inet_ntop(AF_INET6, &((sockaddr_in6*)&a.s)->sin6_addr, ip, sizeof(ip));
  snprintf(b, sizeof(b), "%s:%u", ip, portOf(a));
  return b;
}
struct IpRule { Addr a; IpMode m; };
static Vec<IpRule> g_ipRules;
void ipMode(const Addr& a, IpMode m) {
  for (IpRule& r : g_ipRules) if (sameIp(r.a, a)) { r.m = m; return; }
  g_ipRules.push_back({a, m});
}
static IpMode modeOf(const Addr& a) {
  for (IpRule& r : g_ipRules) if (sameIp(r.a, a)) return r.m;
  return IP_NORMAL;
}
static KSock* findListener(const Addr& to) {
  for (KSock* s : g_socks) {
    if (s->state != S_LISTEN || s->dead || portOf(s->local) != portOf(to)) continue;
    if (sameIp(s->local, to)) return s;
    if (isAny(s->local)) {
      if (s->family == to.s.ss_family) return s;
      if (s->family == AF_INET6 && !s->v6only) return s;
    }
  }
  return nullptr;
}
static bool portTaken(uint16_t p, const Addr& a) {
  for (KSock* s : g_socks) {
    if (s->dead || !s->bound || portOf(s->local) != p) continue;
    if (s->state == S_ESTABLISHED || s->state == S_CLOSED) continue;
    if (isAny(s->local) || isAny(a) || sameIp(s->local, a)) return true;
  }
  return false;
}
static uint16_t ephemeral(const Addr& a) {
  for (;;) { uint16_t p = g_nextPort++; if (g_nextPort >= 60000) g_nextPort = 40000; if (!portTaken(p, a)) return p; }
}
static void connectFail(KSock* s, int err) {
  traceOp("net: connect of socket %llu fd %d fails: %s", (unsigned long long)s->id, s->fd, strerror(err));
  s->state = S_CLOSED; s->err = err; s->failed = true; s->connectErr = err;
  // The shutdown flags aren't set in S_CLOSED, the state is enough.
  wakeFile(s, 0);
}
static void enqueueAccept(void* a, uint64_t) {
  KSock* srv = (KSock*)a;
  KSock* l = srv->listener;
  if (!l || l->dead || l->state != S_LISTEN) { srv->listener = nullptr; srv->dead = true; sendRst(srv, ECONNRESET); srv->state = S_CLOSED; return; }
  if ((int)l->acceptQ.size() > l->backlog) { addTimer(now() + 100 * MS, enqueueAccept, srv, 0); return; }
  l->acceptQ.push_back(srv);
  wakeFile(l, EPOLLIN | EPOLLRDNORM);
}
struct ConnJob { KSock* s; uint64_t seq; int err; bool forced; };
static void establish(KSock* s, KSock* l) {
  KSock* srv;
  {
    bool mine = l->mine;
    if (mine) ++g_noFault;
    srv = newSock(s->remote.s.ss_family);
    if (mine) --g_noFault;
  }
  srv->sndbuf = l->sndbuf; srv->rcvbuf = l->rcvbuf;
  srv->state = S_ESTABLISHED; srv->bound = true; srv->local = s->remote; srv->remote = s->local;
  srv->peer = s; s->peer = srv; srv->listener = l;
  s->state = S_ESTABLISHED;
  traceOp("net: socket %llu fd %d is connected", (unsigned long long)s->id, s->fd);
  wakeFile(s, 0);
  addTimer(now() + latency(), enqueueAccept, srv, 0);
  if (faultEnabled(F_conn_reset) && chance(K_FAULT, 1, 3)) {
    static const int errs[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ECONNRESET};
    int e = errs[choose(K_FAULTARG, 4)];
    addTimer(now() + ((50 * US) << choose(K_FAULTARG, 18)), injectedReset, choose(K_FAULTARG, 2) ? srv : s, (uint64_t)e);
  }
}
static void connectDone(void* a, uint64_t) {
  ConnJob* j = (ConnJob*)a;
  KSock* s = j->s;
  if (s->dead || s->state != S_CONNECTING || s->connSeq != j->seq) return;
  if (j->err) { connectFail(s, j->err); return; }
  KSock* l = findListener(s->remote);
  if (!l) { connectFail(s, ECONNREFUSED); return; }
  establish(s, l);
}
int kConnectStart(KSock* s, const sockaddr* a, socklen_t len, bool noFault) {
  if (noFault) ++g_noFault;
  struct Off { bool b; ~Off() { if (b) --g_noFault; } } off{noFault};
  if (len < sizeof(sockaddr_in) || (a->sa_family == AF_INET6 && len < sizeof(sockaddr_in6))) return -EINVAL;
  if (a->sa_family != s->family) return a->sa_family == AF_UNSPEC ? -EINVAL : -EAFNOSUPPORT;
  switch (s->state) {
  case S_CONNECTING: return -EALREADY;
  case S_ESTABLISHED: case S_LISTEN: return -EISCONN;
  case S_CLOSED: return -ECONNABORTED;
  }
  memset(&s->remote, 0, sizeof(s->remote));
  memcpy(&s->remote.s, a, len < sizeof(s->remote.s) ? len : sizeof(s->remote.s)); s->remote.len = len;
  traceOp("net: socket %llu fd %d connects to %s", (unsigned long long)s->id, s->fd, addrStr(s->remote));
  IpMode m = modeOf(s->remote);
  if (nfault(F_conn_immediate_err)) {
    static const int errs[] = {ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EACCES, ENOBUFS};
    return -errs[choose(K_FAULTARG, 5)];
  }
  if (m == IP_UNREACH_NOW) return -ENETUNREACH;
  if (!s->bound) {
    s->bound = true;
    if (s->family == AF_INET) s->local = loop4(0); else s->local = loop6(0);
    setPort(s->local, ephemeral(s->local));
  }
  s->state = S_CONNECTING; ++s->connSeq;
  ConnJob* j = knew<ConnJob>();
  j->s = s; j->seq = s->connSeq; j->err = 0;
  uint64_t at = now() + latency() * 2;
  if (nfault(F_conn_immediate_ok) && m == IP_NORMAL) {
    KSock* l = findListener(s->remote);
    if (l) { establish(s, l); return 0; }
  }
  if (m == IP_REFUSE || nfault(F_conn_refused)) j->err = ECONNREFUSED;
  else if (m == IP_UNREACH || nfault(F_conn_unreach)) j->err = EHOSTUNREACH;
  else if (m == IP_TIMEOUT || m == IP_BLACKHOLE || nfault(F_conn_timeout)) { j->err = ETIMEDOUT; at = now() + (m == IP_BLACKHOLE ? 20 * SEC : SEC * (1 + choose(K_FAULTARG, 30))); }
  else if (nfault(F_net_delay)) { uint64_t d = (100 * US) << choose(K_FAULTARG, 16); at += d; noteDelay(d); }
  addTimer(at, connectDone, j, 0);
  return -EINPROGRESS;
}
int kConnectResult(KSock* s) {
  if (s->state == S_CONNECTING) return -EINPROGRESS;
  if (s->state == S_ESTABLISHED) return 0;
  if (s->err) { int e = s->err; s->err = 0; return -e; }
  return s->connectErr ? -s->connectErr : -ECONNABORTED;
}
std::function<void(const Addr&, const Addr&, uint8_t*, size_t)> g_wire;
static int ioFail(KSock* s, bool send);
long kSend(KSock* s, const iovec* v, size_t n, bool noFault) {
  if (noFault) ++g_noFault;
  struct Off { bool b; ~Off() { if (b) --g_noFault; } } off{noFault};
  if (s->state == S_CONNECTING) { s->noSpace = true; return -EAGAIN; }
  if (s->state == S_LISTEN || s->state == S_NEW) return -EPIPE;
  size_t want = 0;
  for (size_t i = 0; i < n; ++i) { want += v[i].iov_len; checkMem(v[i].iov_base, v[i].iov_len, false, PC); }
  if (s->err || s->wrShut || s->state == S_CLOSED) {
    if (s->err) { int e = s->err; s->err = 0; return -e; }
    return -EPIPE;
  }
  if (want == 0) return 0;
  if (int e = ioFail(s, true)) return -e;
  size_t room = sndFree(s);
  if (room > 0 && nfault(F_send_eagain)) { s->pressure = true; addTimer(now() + (20 * US << choose(K_FAULTARG, 12)), pressureEnd, s, 0); room = 0; }
  if (room == 0) { s->noSpace = true; return -EAGAIN; }
  size_t m = want < room ? want : room;
  if (m > 1 && nfault(F_short_send)) {
    m = 1 + choose(K_FAULTARG, (uint32_t)(m - 1 < 4096 ? m - 1 : 4096));
    if (!s->pressure) { s->pressure = true; addTimer(now() + (20 * US << choose(K_FAULTARG, 12)), pressureEnd, s, 0); }
  }
  size_t left = m, vi = 0, off2 = 0;
  while (left > 0) {
    size_t piece = left < g_net.mss ? left : g_net.mss;
    if (piece > 1 && nfault(F_recv_split)) piece = 1 + choose(K_FAULTARG, (uint32_t)(piece - 1));
    // Not too many segments.
    if (left / piece > 200) piece = left / 200 + 1;
    if (piece > left) piece = left;
    Seg g; g.fin = g.rst = false; g.rstErr = 0;
    g.data.reserve(piece);
    while (g.data.size() < piece) {
      size_t k = v[vi].iov_len - off2, need = piece - g.data.size();
      if (k > need) k = need;
      const uint8_t* b = (const uint8_t*)v[vi].iov_base + off2;
      g.data.insert(g.data.end(), b, b + k);
      off2 += k;
      if (off2 == v[vi].iov_len) { ++vi; off2 = 0; }
    }
    left -= piece;
    s->outBytes += piece;
    if (g_wire) g_wire(s->local, s->remote, &g.data[0], g.data.size());
    pushSeg(s, std::move(g));
  }
  s->nsent += m;
  if (m < want) s->noSpace = true;
  hbRelease(&s->vc);
  return (long)m;
}
static Vec<IoFail> g_ioFails;
bool (*g_ioFail)(uint64_t, bool, int);
static bool isDirty(KSock* s) { return s->state != S_ESTABLISHED || s->finIn || s->err || s->rdShut || s->wrShut; }
IoFail ioFailOf(uint64_t file) {
  for (IoFail& f : g_ioFails) if (f.file == file) {
    for (KSock* s : g_socks) if (s->id == file && !s->dead && isDirty(s)) f.dirty = true;
    return f;
  }
  return IoFail{0, 0, 0, true};
}
static int ioFail(KSock* s, bool send) {
  Atomic at;                   // The hook isn't a part of the kernel.
  if (!g_ioFail || s->state != S_ESTABLISHED || g_noFault || !faultEnabled(send ? F_send_fail : F_recv_fail) || !g_ioFail(s->id, send, 0) || !nfault(send ? F_send_fail : F_recv_fail)) return 0;
  static const int se[] = {ENOBUFS, ENOMEM, EHOSTUNREACH, EPERM}, re[] = {ENOMEM, ENOBUFS, EHOSTUNREACH, ETIMEDOUT};
  int e = (send ? se : re)[choose(K_FAULTARG, 4)];
  IoFail* x = nullptr;
  for (IoFail& f : g_ioFails) if (f.file == s->id) x = &f;
  if (!x) { g_ioFails.push_back(IoFail{s->id, 0, 0, false}); x = &g_ioFails.back(); }
  if (isDirty(s)) x->dirty = true;
  int& to = send ? x->sendErr : x->recvErr;
  if (!to) to = e;
  g_ioFail(s->id, send, e);
  traceOp("net: %s of socket %llu fd %d fails: %s", send ? "send" : "receive", (unsigned long long)s->id, s->fd, strerror(e));
  return e;
}
long kRecv(KSock* s, const iovec* v, size_t n, bool noFault) {
  if (noFault) ++g_noFault;
  struct Off { bool b; ~Off() { if (b) --g_noFault; } } off{noFault};
  if (s->state == S_NEW || s->state == S_LISTEN) return -ENOTCONN;
  if (s->state == S_CONNECTING) return -EAGAIN;
  size_t want = 0;
  for (size_t i = 0; i < n; ++i) { want += v[i].iov_len; checkMem(v[i].iov_base, v[i].iov_len, true, PC); }
  if (want) if (int e = ioFail(s, false)) return -e;
  if (!s->rx.empty()) {
    size_t m = s->rx.size() < want ? s->rx.size() : want, done = 0;
    if (m > 1 && nfault(F_short_recv)) m = 1 + choose(K_FAULTARG, (uint32_t)(m - 1));
    for (size_t i = 0; i < n && done < m; ++i) {
      size_t k = v[i].iov_len < m - done ? v[i].iov_len : m - done;
      std::copy(s->rx.begin() + (long)done, s->rx.begin() + (long)(done + k), (uint8_t*)v[i].iov_base);
      done += k;
    }
    s->rx.erase(s->rx.begin(), s->rx.begin() + (long)m);
    s->nrecvd += m;
    if (s->peer) { hbAcquire(&s->peer->vc); if (s->peer->windowWait) schedulePump(s->peer, now() + latency()); }
    return (long)m;
  }
  if (want == 0) return 0;
  if (s->peer) hbAcquire(&s->peer->vc);
  if (s->finIn) return 0;
  if (s->err) { int e = s->err; s->err = 0; return -e; }
  if (s->rdShut || s->state == S_CLOSED) return 0;
  return -EAGAIN;
}
static KSock* acceptTake(KSock* l) {
  KSock* s = l->acceptQ.front();
  l->acceptQ.pop_front();
  s->listener = nullptr;
  return s;
}
static void dropConn(KSock* s) {
  // A connection nobody will ever own.
  s->dead = true;
  if (s->state == S_ESTABLISHED) { sendRst(s, ECONNRESET); s->state = S_CLOSED; s->failed = true; }
}
int kAccept(KSock* l, sockaddr* a, socklen_t* len, int flags, bool noFault) {
  if (noFault) ++g_noFault;
  struct Off { bool b; ~Off() { if (b) --g_noFault; } } off{noFault};
  if (l->state != S_LISTEN) return -EINVAL;
  if (!l->acceptQ.empty()) {
    if (nfault(F_accept_abort)) {
      static const int errs[] = {ECONNABORTED, EINTR, EPROTO, ENETDOWN, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ENONET, EHOSTDOWN, ENOPROTOOPT};
      int e = errs[choose(K_FAULTARG, 10)];
      if (e != EINTR) dropConn(acceptTake(l));
      traceOp("accept error %s", strerror(e));
      return -e;
    }
    if (g_net.acceptCritical && nfault(F_accept_err)) {
      static const int errs[] = {EMFILE, ENFILE, ENOMEM, ENOBUFS};
      int e = errs[choose(K_FAULTARG, 4)];
      g_net.acceptFailed = e;
      return -e;
    }
  }
  if (l->acceptQ.empty()) return -EAGAIN;
  KSock* s = acceptTake(l);
  s->nonblock = (flags & SOCK_NONBLOCK) != 0;
  s->mine = g_noFault > 0;
  int fd = allocFd(s);
  if (a) {
    socklen_t k = *len < s->remote.len ? *len : s->remote.len;
    memcpy(a, &s->remote.s, k); *len = s->remote.len;
  }
  traceOp("net: accepted fd %d", fd);
  hbAcquire(&l->acceptVc);
  g_lastAccepted = fd;
  return fd;
}
int lastAcceptedFd() { return g_lastAccepted; }

// ------------------------------------------------------------------ close ----
static void epDelItem(EpItem* it) {
  Epoll* ep = it->ep;
  if (it->ready) for (size_t i = 0; i < ep->ready.size(); ++i) if (ep->ready[i] == it) { ep->ready.erase(ep->ready.begin() + (long)i); break; }
  for (size_t i = 0; i < ep->all.size(); ++i) if (ep->all[i] == it) { ep->all.erase(ep->all.begin() + (long)i); break; }
  for (size_t i = 0; i < it->f->items.size(); ++i) if (it->f->items[i] == it) { it->f->items.erase(it->f->items.begin() + (long)i); break; }
}
static void shutdownWr(KSock* s) {
  if (s->wrShut) return;
  s->wrShut = true;
  if (s->state == S_ESTABLISHED && !s->finOut) {
    s->finOut = true;
    Seg g; g.fin = true; g.rst = false; g.rstErr = 0;
    pushSeg(s, std::move(g));
  }
}
static void sockRelease(KSock* s) {
  s->dead = true;
  if (s->state == S_LISTEN) {
    while (!s->acceptQ.empty()) dropConn(acceptTake(s));
    s->state = S_CLOSED;
    return;
  }
  if (s->state == S_CONNECTING || s->state == S_NEW) { s->state = S_CLOSED; return; }
  if (s->state != S_ESTABLISHED) return;
  hbRelease(&s->vc);
  if (!s->rx.empty()) {
    // Unread data: the other side gets a reset. Not sent data is lost.
    sendRst(s, ECONNRESET);
    s->state = S_CLOSED; s->failed = true;
    return;
  }
  shutdownWr(s);
  s->rdShut = true;
}
void fileUnref(File* f) {
  if (--f->refs > 0) return;
  while (!f->items.empty()) epDelItem(f->items[0]);
  if (f->kind == K_SOCK) sockRelease((KSock*)f);
  else if (f->kind == K_EPOLL) { Epoll* ep = (Epoll*)f; while (!ep->all.empty()) epDelItem(ep->all[0]); }
}
static int doClose(int fd) {
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  g_fds[fd] = nullptr;
  traceOp("close fd %d", fd);
  if (KSock* s = fileSock(f)) for (IoFail& x : g_ioFails) if (x.file == s->id && isDirty(s)) x.dirty = true;
  f->fd = -1;
  fileUnref(f);
  return 0;
}

long kEventfdRead(File* f, uint64_t* v) {
  EventFd* e = (EventFd*)f;
  if (e->value == 0) return -EAGAIN;
  *v = e->value; e->value = 0;
  hbAcquire(&e->vc);
  wakeFile(f, EPOLLOUT);
  return 8;
}
void kEventfdSignal(File* f, uint64_t v) { ((EventFd*)f)->value += v; wakeFile(f, EPOLLIN); }

// -------------------------------------------------------------------- dns ----
static Vec<DnsHost*> g_dns;
static int g_dnsLive; static uint64_t g_dnsCalls;
void dnsAdd(const DnsHost& h) { DnsHost* p = knew<DnsHost>(); *p = h; g_dns.push_back(p); }
void dnsClear() { for (DnsHost* h : g_dns) h->~DnsHost(); g_dns.clear(); }
int dnsLiveLists() { return g_dnsLive; }
static Vec<uint64_t> g_dnsTimes;
uint64_t dnsCalls() { return g_dnsCalls; }
static uint64_t g_dnsRunning;
uint64_t dnsRunning() { return g_dnsRunning; }
uint64_t dnsCallsSince(uint64_t ns) { uint64_t n = 0; for (uint64_t t : g_dnsTimes) if (t >= ns) ++n; return n; }

// ------------------------------------------------------------------ peers ----
int peerListen(Addr& a) {
  NoFault nf;
  int fd = socket(a.s.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0);
  if (bind(fd, (sockaddr*)&a.s, a.len) != 0) harnessError("peer bind failed: %d", errno);
  socklen_t l = sizeof(a.s);
  getsockname(fd, (sockaddr*)&a.s, &l); a.len = l;
  if (listen(fd, 100) != 0) harnessError("peer listen failed");
  return fd;
}
static bool waitFile(File* f, uint64_t deadline) { return block(f, W_FD, deadline); }
static uint64_t deadlineOf(uint64_t t) { return t >= NEVER - now() ? NEVER : now() + t; }
int peerAccept(int fd, uint64_t timeout) {
  uint64_t d = deadlineOf(timeout);
  for (;;) {
    File* f = fileGet(fd);
    if (!f) return -1;
    int rc = kAccept(fileSock(f), nullptr, nullptr, SOCK_NONBLOCK, true);
    if (rc >= 0) { g_fdMine[rc] = true; return rc; }
    if (rc != -EAGAIN) return failN(-rc);
    if (now() >= d) return failN(ETIMEDOUT);
    waitFile(f, d);
  }
}
int peerConnect(const Addr& a, uint64_t timeout) {
  uint64_t d = deadlineOf(timeout);
  int fd;
  { NoFault nf; fd = socket(a.s.ss_family, SOCK_STREAM | SOCK_NONBLOCK, 0); }
  File* f = fileGet(fd);
  KSock* s = fileSock(f);
  int rc = kConnectStart(s, (const sockaddr*)&a.s, a.len, true);
  while (rc == -EINPROGRESS && now() < d) {
    waitFile(f, d);
    rc = kConnectResult(s);
  }
  if (rc == 0) return fd;
  peerClose(fd);
  return failN(-rc);
}
long peerSendSome(int fd, const void* d, size_t n) {
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  schedPoint(OP_SYSCALL, f, PC);
  iovec v{(void*)d, n};
  long rc = kSend(fileSock(f), &v, 1, true);
  if (rc < 0) return failN((int)-rc);
  return rc;
}
long peerSend(int fd, const void* d, size_t n) {
  size_t done = 0;
  while (done < n) {
    long rc = peerSendSome(fd, (const char*)d + done, n - done);
    if (rc < 0) {
      if (errno != EAGAIN) return -1;
      File* f = fileGet(fd);
      if (!f) return failN(EBADF);
      fileSock(f)->noSpace = true;
      waitFile(f, NEVER);
      continue;
    }
    done += (size_t)rc;
  }
  return (long)n;
}
long peerRecv(int fd, void* d, size_t n, uint64_t timeout) {
  uint64_t dl = deadlineOf(timeout);
  for (;;) {
    File* f = fileGet(fd);
    if (!f) return failN(EBADF);
    schedPoint(OP_SYSCALL, f, PC);
    f = fileGet(fd);
    if (!f) return failN(EBADF);
    iovec v{d, n};
    long rc = kRecv(fileSock(f), &v, 1, true);
    if (rc >= 0) return rc;
    if (rc != -EAGAIN) return failN((int)-rc);
    if (now() >= dl) return -2;
    waitFile(f, dl);
  }
}
void peerClose(int fd) { NoFault nf; wakeAll(fileGet(fd), W_FD); doClose(fd); }
void peerShutdown(int fd, int how) { NoFault nf; shutdown(fd, how); }
void peerReset(int fd) {
  NoFault nf;
  KSock* s = fileSock(fileGet(fd));
  if (s && s->state == S_ESTABLISHED) {
    countFault(F_peer_rst);
    s->rx.push_back(0);        // Unread data makes the close a reset.
  }
  doClose(fd);
}
uint64_t fdFile(int64_t fd) { File* f = fileGet((int)fd); return f ? f->id : 0; }
void fdGive(int fd) { g_fdMine[fd] = false; KSock* s = fileSock(fileGet(fd)); if (s) s->mine = false; }
bool sockOptKeepAlive(int fd, int& on, int& idle, int& total) {
  KSock* s = fileSock(fileGet(fd));
  if (!s) return false;
  on = s->keepAlive; idle = s->keepIdle; total = s->userTimeout;
  return true;
}
int sockOptNoDelay(int fd) { KSock* s = fileSock(fileGet(fd)); return s ? s->noDelay : -2; }
int netKillAll(int err) {
  int n = 0;
  for (KSock* s : g_socks) if (s->state == S_ESTABLISHED) { resetSock(s, err, "network"); ++n; }
  return n;
}
void netStallAll(uint64_t ns) {
  for (KSock* s : g_socks) if (s->state == S_ESTABLISHED && s->stallUntil < now() + ns) s->stallUntil = now() + ns;
}
uint64_t netSockets() { return g_socks.size(); }

void resetKernel() {}

static bool epollWaitEnd(Epoll* ep, epoll_event* out, int max, int* n) {
  *n = 0;
  size_t todo = ep->ready.size();
  Vec<EpItem*> again;
  while (todo-- > 0 && *n < max) {
    EpItem* it = ep->ready.front();
    ep->ready.pop_front();
    it->ready = false;
    uint32_t m = fileMask(it->f) & (it->ev.events | EPOLLERR | EPOLLHUP);
    if (!m) continue;
    out[*n].events = m; out[*n].data = it->ev.data;
    checkMem(&out[*n], sizeof(*out), true, PC);
    hbAcquire(&it->vc);
    if (it->f->kind == K_EVENTFD) hbAcquire(&((EventFd*)it->f)->vc);
    traceOp("epoll: fd %d events 0x%x", it->fd, m);
    ++*n;
    if (!(it->ev.events & EPOLLET)) again.push_back(it);
  }
  for (EpItem* it : again) { it->ready = true; ep->ready.push_back(it); }
  return *n > 0;
}
}

using namespace sim;

// --------------------------------------------------------------- syscalls ----
extern "C" {
int socket(int domain, int type, int proto) {
  if (!inRun()) return (int)::rawSyscall(SYS_socket, domain, type, proto, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  if (domain != AF_INET && domain != AF_INET6) return failN(EAFNOSUPPORT);
  if ((type & 0xf) != SOCK_STREAM) return failN(EPROTONOSUPPORT);
  if (nfault(F_socket_emfile)) { static const int errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; return failN(errs[choose(K_FAULTARG, 4)]); }
  KSock* s = newSock(domain);
  s->nonblock = (type & SOCK_NONBLOCK) != 0;
  int fd = allocFd(s);
  traceOp("socket() = %d, id %llu", fd, (unsigned long long)s->id);
  return fd;
}
#define SOCK_OR_FAIL(fd) File* f = fileGet(fd); if (!f) return failN(EBADF); KSock* s = fileSock(f); if (!s) return failN(ENOTSOCK); (void)s
int bind(int fd, const sockaddr* a, socklen_t len) {
  if (!inRun()) return (int)::rawSyscall(SYS_bind, fd, (long)a, len, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  if (s->bound || s->state != S_NEW) return failN(EINVAL);
  Addr x; memset(&x, 0, sizeof(x)); memcpy(&x.s, a, len); x.len = len;
  if (a->sa_family != s->family) return failN(EAFNOSUPPORT);
  if (nfault(F_bind_fail)) { static const int errs[] = {EADDRINUSE, EACCES, EADDRNOTAVAIL}; return failN(errs[choose(K_FAULTARG, 3)]); }
  uint16_t p = portOf(x);
  if (p == 0) setPort(x, ephemeral(x));
  else if (portTaken(p, x)) return failN(EADDRINUSE);
  s->local = x; s->bound = true;
  return 0;
}
int listen(int fd, int backlog) {
  if (!inRun()) return (int)::rawSyscall(SYS_listen, fd, backlog, 0, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  if (s->state != S_NEW && s->state != S_LISTEN) return failN(EINVAL);
  if (nfault(F_bind_fail)) return failN(EADDRINUSE);
  if (!s->bound) { setPort(s->local, ephemeral(s->local)); s->bound = true; }
  s->state = S_LISTEN; s->backlog = backlog;
  return 0;
}
int accept4(int fd, sockaddr* a, socklen_t* len, int flags) {
  if (!inRun()) return (int)::rawSyscall(SYS_accept4, fd, (long)a, (long)len, flags, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  int rc = kAccept(s, a, len, flags, false);
  if (rc == -EAGAIN && !s->nonblock) violation("*", "blocking-call", "an accept blocks its thread, pc %p", PC);
  return rc < 0 ? failN(-rc) : rc;
}
int accept(int fd, sockaddr* a, socklen_t* len) { return accept4(fd, a, len, 0); }
int connect(int fd, const sockaddr* a, socklen_t len) {
  if (!inRun()) return (int)::rawSyscall(SYS_connect, fd, (long)a, len, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  if (!s->nonblock) violation("*", "blocking-call", "a blocking connect, pc %p", PC);
  int rc = kConnectStart(s, a, len, false);
  return rc < 0 ? failN(-rc) : 0;
}
int shutdown(int fd, int how) {
  if (!inRun()) return (int)::rawSyscall(SYS_shutdown, fd, how, 0, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  traceOp("shutdown fd %d", fd);
  if (s->state == S_NEW || s->state == S_CLOSED) { if (s->state == S_CLOSED) wakeFile(s, 0); return failN(ENOTCONN); }
  if (s->state == S_LISTEN) { return 0; }
  if (s->state == S_CONNECTING) { s->state = S_CLOSED; s->err = 0; s->connectErr = ECONNABORTED; ++s->connSeq; s->rdShut = s->wrShut = true; wakeFile(s, 0); return 0; }
  hbRelease(&s->vc);
  if (how == SHUT_RD || how == SHUT_RDWR) s->rdShut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) shutdownWr(s);
  wakeFile(s, 0);
  return 0;
}
int close(int fd) {
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_close, fd, 0, 0, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  return doClose(fd);
}
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_sendmsg, fd, (long)m, flags, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  long rc = kSend(s, m->msg_iov, m->msg_iovlen, false);
  if (rc == -EAGAIN && !s->nonblock && !(flags & MSG_DONTWAIT)) violation("*", "blocking-call", "a send blocks its thread, pc %p", PC);
  traceOp("sendmsg fd %d = %ld", fd, rc);
  return rc < 0 ? failN((int)-rc) : rc;
}
ssize_t recvmsg(int fd, msghdr* m, int flags) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_recvmsg, fd, (long)m, flags, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  long rc = kRecv(s, m->msg_iov, m->msg_iovlen, false);
  if (rc == -EAGAIN && !s->nonblock && !(flags & MSG_DONTWAIT)) violation("*", "blocking-call", "a receive blocks its thread, pc %p", PC);
  traceOp("recvmsg fd %d = %ld", fd, rc);
  return rc < 0 ? failN((int)-rc) : rc;
}
ssize_t send(int fd, const void* d, size_t n, int flags) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_sendto, fd, (long)d, (long)n, flags, 0, 0);
  iovec v{(void*)d, n}; msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = &v; m.msg_iovlen = 1;
  return sendmsg(fd, &m, flags);
}
ssize_t recv(int fd, void* d, size_t n, int flags) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_recvfrom, fd, (long)d, (long)n, flags, 0, 0);
  iovec v{d, n}; msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = &v; m.msg_iovlen = 1;
  return recvmsg(fd, &m, flags);
}
ssize_t sendto(int fd, const void* d, size_t n, int flags, const sockaddr* a, socklen_t len) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_sendto, fd, (long)d, (long)n, flags, (long)a, (long)len);
  return send(fd, d, n, flags);
}
ssize_t recvfrom(int fd, void* d, size_t n, int flags, sockaddr* a, socklen_t* len) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_recvfrom, fd, (long)d, (long)n, flags, (long)a, (long)len);
  if (len) *len = 0;
  return recv(fd, d, n, flags);
}
ssize_t writev(int fd, const iovec* v, int n) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_writev, fd, (long)v, n, 0, 0, 0);
  msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = (iovec*)v; m.msg_iovlen = (size_t)n;
  return sendmsg(fd, &m, 0);
}
ssize_t readv(int fd, const iovec* v, int n) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_readv, fd, (long)v, n, 0, 0, 0);
  msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = (iovec*)v; m.msg_iovlen = (size_t)n;
  return recvmsg(fd, &m, 0);
}
static ssize_t evWrite(File* f, uint64_t v) {
  EventFd* e = (EventFd*)f;
  if (v == UINT64_MAX) return failN(EINVAL);
  if (UINT64_MAX - 1 - e->value < v) return failN(EAGAIN);
  e->value += v;
  hbRelease(&e->vc);
  wakeFile(f, EPOLLIN);
  return 8;
}
ssize_t write(int fd, const void* d, size_t n) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_write, fd, (long)d, (long)n, 0, 0, 0);
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  if (f->kind == K_EVENTFD) { schedPoint(OP_SYSCALL, nullptr, PC); f = fileGet(fd); if (!f) return failN(EBADF); return evWrite(f, *(const uint64_t*)d); }
  return send(fd, d, n, 0);
}
ssize_t read(int fd, void* d, size_t n) {
  if (!isSimFd(fd)) return ::rawSyscall(SYS_read, fd, (long)d, (long)n, 0, 0, 0);
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  if (f->kind == K_EVENTFD) {
    schedPoint(OP_SYSCALL, nullptr, PC);
    f = fileGet(fd);
    if (!f) return failN(EBADF);
    long rc = kEventfdRead(f, (uint64_t*)d);
    return rc < 0 ? failN((int)-rc) : rc;
  }
  if (f->kind == K_TEXT) {
    TextFile* t = (TextFile*)f;
    size_t k = strlen(t->text + t->pos);
    if (k > n) k = n;
    memcpy(d, t->text + t->pos, k); t->pos += k;
    return (ssize_t)k;
  }
  return recv(fd, d, n, 0);
}
int eventfd(unsigned v, int flags) {
  if (!inRun()) return (int)::rawSyscall(SYS_eventfd2, v, flags, 0, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  EventFd* e = newFile<EventFd>(K_EVENTFD);
  e->value = v; e->nonblock = true;
  return allocFd(e);
}
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }
int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, 8) == 8 ? 0 : -1; }
int getsockopt(int fd, int level, int name, void* v, socklen_t* len) {
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_getsockopt, fd, level, name, (long)v, (long)len, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  if (level == SOL_SOCKET && name == SO_ERROR) { *(int*)v = s->err; s->err = 0; return 0; }
  // The other options mean nothing for the simulated network.
  if (level != SOL_SOCKET && level != IPPROTO_TCP && level != IPPROTO_IPV6 && level != IPPROTO_IP) return failN(ENOPROTOOPT);
  int x = level == SOL_SOCKET && name == SO_TYPE ? SOCK_STREAM : level == SOL_SOCKET && name == SO_DOMAIN ? s->family :
    level == SOL_SOCKET && name == SO_PROTOCOL ? IPPROTO_TCP : level == SOL_SOCKET && name == SO_ACCEPTCONN ? s->state == S_LISTEN :
    level == SOL_SOCKET && (name == SO_SNDBUF || name == SO_RCVBUF) ? 65536 :
    level == SOL_SOCKET && name == SO_KEEPALIVE ? s->keepAlive : level == IPPROTO_TCP && name == TCP_NODELAY ? s->noDelay :
    level == IPPROTO_TCP && name == TCP_KEEPINTVL ? s->keepIntvl : level == IPPROTO_TCP && name == TCP_KEEPIDLE ? s->keepIdle :
    level == IPPROTO_TCP && name == TCP_KEEPCNT ? s->keepCnt : level == IPPROTO_TCP && name == TCP_USER_TIMEOUT ? s->userTimeout :
    level == IPPROTO_IPV6 && name == IPV6_V6ONLY ? s->v6only : 0;
  memcpy(v, &x, *len < sizeof(x) ? *len : sizeof(x));
  if (*len > sizeof(x)) *len = sizeof(x);
  return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t len) {
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_setsockopt, fd, level, name, (long)v, len, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  int x = *(const int*)v;
  if (nfault(F_sockopt_fail)) { static const int errs[] = {ENOMEM, EINVAL, ENOPROTOOPT}; return failN(errs[choose(K_FAULTARG, 3)]); }
  if (level == SOL_SOCKET && name == SO_KEEPALIVE) s->keepAlive = x;
  else if (level == SOL_SOCKET && name == SO_REUSEADDR) {}
  else if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY) { if (s->family != AF_INET6) return failN(ENOPROTOOPT); s->v6only = x; }
  else if (level == IPPROTO_TCP && name == TCP_NODELAY) s->noDelay = x;
  else if (level == IPPROTO_TCP && name == TCP_KEEPINTVL) { if (x < 1 || x > 32767) return failN(EINVAL); s->keepIntvl = x; }
  else if (level == IPPROTO_TCP && name == TCP_KEEPIDLE) { if (x < 1 || x > 32767) return failN(EINVAL); s->keepIdle = x; }
  else if (level == IPPROTO_TCP && name == TCP_KEEPCNT) { if (x < 1 || x > 127) return failN(EINVAL); s->keepCnt = x; }
  else if (level == IPPROTO_TCP && name == TCP_USER_TIMEOUT) { if (x < 0) return failN(EINVAL); s->userTimeout = x; }
  else if (level != SOL_SOCKET && level != IPPROTO_TCP && level != IPPROTO_IPV6 && level != IPPROTO_IP) return failN(ENOPROTOOPT);
  // The other options mean nothing for the simulated network.
  return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* len) {
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_getsockname, fd, (long)a, (long)len, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  memcpy(a, &s->local.s, *len < s->local.len ? *len : s->local.len); *len = s->local.len;
  return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* len) {
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_getpeername, fd, (long)a, (long)len, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  SOCK_OR_FAIL(fd);
  if (s->state != S_ESTABLISHED) return failN(ENOTCONN);
  memcpy(a, &s->remote.s, *len < s->remote.len ? *len : s->remote.len); *len = s->remote.len;
  return 0;
}
int ioctl(int fd, unsigned long cmd, ...) {
  va_list ap; va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_ioctl, fd, (long)cmd, (long)arg, 0, 0, 0);
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  if (cmd == FIONBIO) { f->nonblock = *(int*)arg != 0; return 0; }
  harnessError("unexpected ioctl %lu", cmd);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!isSimFd(fd)) return (int)::rawSyscall(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
  File* f = fileGet(fd);
  if (!f) return failN(EBADF);
  if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_GETFD) return FD_CLOEXEC;
  if (cmd == F_SETFD) return 0;
  if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
  harnessError("unexpected fcntl %d", cmd);
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));
int epoll_create1(int flags) {
  if (!inRun()) return (int)::rawSyscall(SYS_epoll_create1, flags, 0, 0, 0, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  return allocFd(newFile<Epoll>(K_EPOLL));
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int efd, int op, int fd, epoll_event* ev) {
  if (!isSimFd(efd)) return (int)::rawSyscall(SYS_epoll_ctl, efd, op, fd, (long)ev, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  File* e = fileGet(efd);
  File* f = fileGet(fd);
  if (!e || !f) return failN(EBADF);
  if (e->kind != K_EPOLL) return failN(EINVAL);
  Epoll* ep = (Epoll*)e;
  EpItem* it = nullptr;
  for (EpItem* i : f->items) if (i->ep == ep && i->fd == fd) it = i;
  traceOp("epoll_ctl %s fd %d", op == EPOLL_CTL_ADD ? "add" : op == EPOLL_CTL_DEL ? "del" : "mod", fd);
  if (op == EPOLL_CTL_DEL) {
    if (!it) return failN(ENOENT);
    epDelItem(it);
    return 0;
  }
  if (op == EPOLL_CTL_ADD) {
    if (it) return failN(EEXIST);
    it = knew<EpItem>();
    it->f = f; it->fd = fd; it->ep = ep; it->ready = false;
    ep->all.push_back(it); f->items.push_back(it);
  } else if (!it) return failN(ENOENT);
  it->ev = *ev;
  hbRelease(&it->vc);
  if (fileMask(f) & (ev->events | EPOLLERR | EPOLLHUP)) {
    if (!it->ready) { it->ready = true; ep->ready.push_back(it); }
    wakeAll(ep, W_FD);
  }
  return 0;
}
int epoll_wait(int efd, epoll_event* out, int max, int timeout) {
  if (!isSimFd(efd)) return (int)::rawSyscall(SYS_epoll_wait, efd, (long)out, max, timeout, 0, 0);
  schedPoint(OP_SYSCALL, nullptr, PC);
  uint64_t d = timeout < 0 ? NEVER : now() + (uint64_t)timeout * MS;
  for (;;) {
    File* e = fileGet(efd);
    if (!e) return failN(EBADF);
    int n;
    if (epollWaitEnd((Epoll*)e, out, max, &n)) return n;
    if (now() >= d) return 0;
    if (nfault(F_epoll_eintr)) return failN(EINTR);
    block(e, W_FD, d);
  }
}
int epoll_pwait(int efd, epoll_event* out, int max, int timeout, const sigset_t* mask) {
  if (!isSimFd(efd)) return (int)::rawSyscall(SYS_epoll_pwait, efd, (long)out, max, timeout, (long)mask, 8);
  return epoll_wait(efd, out, max, timeout);
}
int poll(pollfd* p, nfds_t n, int timeout) {
  if (!inRun() || n != 1 || !isSimFd(p->fd)) { if (inRun()) harnessError("unexpected poll"); return (int)::rawSyscall(SYS_poll, (long)p, (long)n, timeout, 0, 0, 0); }
  schedPoint(OP_SYSCALL, nullptr, PC);
  uint64_t d = timeout < 0 ? NEVER : now() + (uint64_t)timeout * MS;
  for (;;) {
    File* f = fileGet(p->fd);
    if (!f) { p->revents = POLLNVAL; return 1; }
    uint32_t m = fileMask(f) & ((uint32_t)(uint16_t)p->events | EPOLLERR | EPOLLHUP);
    p->revents = (short)m;
    if (m) return 1;
    if (now() >= d) return 0;
    if (nfault(F_eintr)) return failN(EINTR);
    block(f, W_FD, d);
  }
}
int get_nprocs(void) { return 2; }
int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (inRun() && strncmp(path, "/proc/", 6) == 0) {
    TextFile* t = newFile<TextFile>(K_TEXT);
    t->text = "Linux version 6.0 (simulated)"; t->pos = 0;
    return allocFd(t);
  }
  if (inRun()) harnessError("unexpected open of %s", path);
  return (int)::rawSyscall(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
}
int open64(const char* path, int flags, ...) __attribute__((alias("open")));

int getaddrinfo(const char* node, const char*, const addrinfo*, addrinfo** res) {
  if (!inRun()) return EAI_FAIL;
  schedPoint(OP_SYSCALL, nullptr, PC);
  ++g_dnsCalls; g_dnsTimes.push_back(now());
  struct Running { Running() { g_dnsRunning = g_dnsCalls; } ~Running() { g_dnsRunning = 0; } } running;
  DnsHost* h = nullptr;
  for (DnsHost* x : g_dns) if (x->name == node) h = x;
  uint64_t delay = h ? h->delay : 0;
  if (nfault(F_dns_delay)) { uint64_t d = MS << choose(K_FAULTARG, 16); delay += d; noteDelay(d); }
  traceOp("getaddrinfo %s delay %.3f ms", node, (double)delay / 1e6);
  if (delay) { uint64_t until = now() + delay; while (now() < until) block(&g_dnsCalls, W_DNS, until); }
  schedPoint(OP_SYSCALL, nullptr, PC);
  if (nfault(F_dns_fail)) {
    static const int rcs[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME, EAI_MEMORY, EAI_SYSTEM};
    int rc = rcs[choose(K_FAULTARG, 5)];
    if (rc == EAI_SYSTEM) errno = EMFILE;
    return rc;
  }
  if (!h) {
    unsigned char b[16];
    // A literal.
    Addr a;
    if (inet_pton(AF_INET, node, b) == 1) a = addr4(b[0], b[1], b[2], b[3], 0);
    else if (inet_pton(AF_INET6, node, b) == 1) { a = addr6(0, 0); memcpy(&((sockaddr_in6*)&a.s)->sin6_addr, b, 16); }
    else return EAI_NONAME;
    static DnsHost* lit = knew<DnsHost>();
    h = lit;
    h->rc = 0; h->addrs.clear(); h->addrs.push_back(a); h->extraFamilies = false;
  }
  if (h->rc) { if (h->rc == EAI_SYSTEM) errno = h->sysErr; return h->rc; }
  addrinfo* head = nullptr; addrinfo** tail = &head;
  static const int types[] = {SOCK_STREAM, SOCK_DGRAM, SOCK_RAW};
  auto add = [&](const Addr& a, int type) {
    addrinfo* x = (addrinfo*)malloc(sizeof(addrinfo));
    memset(x, 0, sizeof(*x));
    x->ai_family = a.s.ss_family; x->ai_socktype = type; x->ai_addrlen = a.len;
    x->ai_addr = (sockaddr*)malloc(sizeof(sockaddr_storage));
    memcpy(x->ai_addr, &a.s, sizeof(a.s));
    *tail = x; tail = &x->ai_next;
  };
  if (h->extraFamilies) { Addr u; memset(&u, 0, sizeof(u)); u.s.ss_family = AF_UNIX; u.len = 16; add(u, SOCK_STREAM); }
  for (const Addr& a : h->addrs) for (int i = 0; i < 3; ++i) add(a, types[i]);
  ++g_dnsLive;
  *res = head;
  return 0;
}
void freeaddrinfo(addrinfo* a) {
  if (!a) return;
  if (a->ai_flags == 0x7ead) violation("C25 C16", "double-free", "freeaddrinfo() twice");
  --g_dnsLive;
  // Never really freed, poisoned: a use afterwards is visible.
  while (a) { addrinfo* n = a->ai_next; a->ai_flags = 0x7ead; memset(a->ai_addr, 0xDD, sizeof(sockaddr_storage)); a->ai_family = 0x7ead; a->ai_next = nullptr; a = n; }
}
const char* gai_strerror(int rc) {
  static char b[32];
  snprintf(b, sizeof(b), "gai error %d", rc);
  return b;
}
}
