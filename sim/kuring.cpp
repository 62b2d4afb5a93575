// Simulated kernel side of io_uring, as far as liburing's library functions reach it.
//
// The operations wait for their descriptors inside of the kernel and complete in its own
// context - not in any thread. Follows io_uring/{net,rw,cancel}.c where users can see it.
#include "knet.h"
#include "rt_int.h"
#include <cerrno>
#include <cstring>
#include <liburing.h>

#define PC __builtin_return_address(0)

namespace sim {
extern VC* g_hbProxy;
namespace {
struct Ring;
enum OpState { OP_ARMED, OP_COMPLETING, OP_DONE };
struct Op {
  Ring* ring; uint64_t seq; int opcode, fd; File* f; uint64_t user; OpState state; bool retrying, started;
  Addr addr; sockaddr* outAddr; socklen_t* outLen; int flags; uint64_t target;
  Vec<iovec> iov; uint64_t* buf; VC vc; long res;
};
struct Cqe { uint64_t user; int res; VC vc; };
struct Ring {
  int fd; io_uring* user; File* ev; bool closed;
  unsigned sqHead, sqTail, cqHead, cqTail, zero, cqSize;
  Vec<Op*> ops; Vec<Cqe> posted; Vec<VC> taken;
};
Vec<Ring*> g_rings;
uint64_t g_opSeq;

struct Proxy { VC* old; Proxy(VC* v) : old(g_hbProxy) { g_hbProxy = v; } ~Proxy() { g_hbProxy = old; } };

void post(Op* o, long res) {
  Ring* r = o->ring;
  if (o->state == OP_DONE) harnessError("io_uring operation %llu completes twice", (unsigned long long)o->seq);
  o->state = OP_DONE;
  for (size_t i = 0; i < r->ops.size(); ++i) if (r->ops[i] == o) { r->ops.erase(r->ops.begin() + (long)i); break; }
  if (o->f) { Proxy p(&o->vc); fileUnref(o->f); o->f = nullptr; }
  if (r->closed) return;
  traceOp("uring: op %llu completes with %ld", (unsigned long long)o->seq, res);
  Cqe c; c.user = o->user; c.res = (int)res; c.vc = o->vc;
  size_t at = r->posted.size();
  if (at > 0 && fault(F_uring_reorder)) at = choose(K_FAULTARG, (uint32_t)at + 1);
  r->posted.insert(r->posted.begin() + (long)at, c);
  if (r->ev) kEventfdSignal(r->ev, 1);
}
void postTimer(void* a, uint64_t) { Op* o = (Op*)a; if (o->state == OP_COMPLETING) post(o, o->res); }
void complete(Op* o, long res) {
  if (fault(F_uring_late)) {
    // Is already done, can't be canceled any more.
    uint64_t d = (10 * US) << choose(K_FAULTARG, 14);
    noteDelay(d);
    o->state = OP_COMPLETING; o->res = res;
    addTimer(now() + d, postTimer, o, 0);
    return;
  }
  post(o, res);
}
void cancelAll(Op* c) {
  Ring* r = c->ring;
  Vec<Op*> found;
  // By the descriptor, or by the user data, or any of them.
  bool byFd = c->flags & IORING_ASYNC_CANCEL_FD, any = c->flags & IORING_ASYNC_CANCEL_ANY, all = any || (c->flags & IORING_ASYNC_CANCEL_ALL);
  for (Op* o : r->ops) {
    if (o == c || o->state != OP_ARMED || !(any || (byFd ? o->f == c->f : o->user == c->target))) continue;
    found.push_back(o);
    if (!all) break;
  }
  if (found.empty()) { complete(c, faultEnabled(F_cancel_race) && choose(K_FAULTARG, 2) ? -ENOENT : 0); return; }
  if (fault(F_cancel_race)) {
    // They are running and are only told to stop.
    for (Op* o : found) {
      uint64_t d = (10 * US) << choose(K_FAULTARG, 10);
      noteDelay(d);
      o->state = OP_COMPLETING; o->res = -EINTR;
      addTimer(now() + d, postTimer, o, 0);
    }
    complete(c, -EALREADY);
    return;
  }
  long n = (long)found.size();
  bool first = choose(K_PICK, 2);
  if (first) complete(c, all ? n : 0);
  for (Op* o : found) complete(o, -ECANCELED);
  if (!first) complete(c, all ? n : 0);
}
void attempt(Op* o) {
  if (o->state != OP_ARMED) return;
  Proxy p(&o->vc);
  KSock* s = fileSock(o->f);
  long rc = -EINVAL;
  switch (o->opcode) {
  case IORING_OP_CONNECT:
    if (!s) { rc = -ENOTSOCK; break; }
    if (!o->started) { o->started = true; rc = kConnectStart(s, (sockaddr*)&o->addr.s, o->addr.len, false); }
    else rc = kConnectResult(s);
    if (rc == -EINPROGRESS) return;
    break;
  case IORING_OP_ACCEPT: rc = s ? kAccept(s, o->outAddr, o->outLen, o->flags, false) : -ENOTSOCK; break;
  case IORING_OP_RECVMSG: rc = s ? kRecv(s, o->iov.data(), o->iov.size(), false) : -ENOTSOCK; break;
  case IORING_OP_SENDMSG: rc = s ? kSend(s, o->iov.data(), o->iov.size(), false) : -ENOTSOCK; break;
  case IORING_OP_READ:
    rc = fileIsEventfd(o->f) ? kEventfdRead(o->f, o->buf) : -EINVAL;
    break;
  case IORING_OP_ASYNC_CANCEL: cancelAll(o); return;
  }
  if (rc == -EAGAIN) return;
  complete(o, rc);
}
void retryTimer(void* a, uint64_t) { Op* o = (Op*)a; o->retrying = false; attempt(o); }
void fileHook(File* f) {
  for (Ring* r : g_rings) for (Op* o : r->ops) {
    if (o->f != f || o->state != OP_ARMED || o->retrying || o->opcode == IORING_OP_ASYNC_CANCEL) continue;
    o->retrying = true;
    addTimer(now(), retryTimer, o, 0);
  }
}
Ring* ringOf(io_uring* u) {
  for (Ring* r : g_rings) if (r->user == u && !r->closed) return r;
  violation("*", "bad-ring", "not an io_uring is used");
}
}
}

using namespace sim;

extern "C" {
int io_uring_queue_init_params(unsigned entries, io_uring* u, io_uring_params* p) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  g_fileHook = fileHook;
  Ring* r = new (malloc(sizeof(Ring))) Ring();
  memset(u, 0, sizeof(*u));
  r->user = u; r->fd = newRingFd(r); r->ev = nullptr; r->closed = false;
  u->ring_fd = u->enter_ring_fd = r->fd;
  u->sq.khead = &r->sqHead; u->sq.ktail = &r->sqTail; u->sq.kflags = &r->zero;
  while (entries & (entries - 1)) ++entries;
  r->cqSize = entries * 2;
  u->sq.ring_entries = entries; u->sq.ring_mask = entries - 1;
  u->sq.sqes = (io_uring_sqe*)malloc(sizeof(io_uring_sqe) * entries);
  u->cq.khead = &r->cqHead; u->cq.ktail = &r->cqTail; u->cq.kflags = &r->zero;
  u->cq.ring_entries = r->cqSize; u->cq.ring_mask = r->cqSize - 1;
  u->cq.cqes = (io_uring_cqe*)malloc(sizeof(io_uring_cqe) * r->cqSize);
  p->features = u->features = IORING_FEAT_NODROP | IORING_FEAT_SINGLE_MMAP | IORING_FEAT_SUBMIT_STABLE;
  g_rings.push_back(r);
  return 0;
}
int io_uring_register_eventfd(io_uring* u, int fd) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  Ring* r = ringOf(u);
  File* f = fileGet(fd);
  if (!f || !fileIsEventfd(f)) return -EBADF;
  if (r->ev) return -EBUSY;
  r->ev = f; fileRef(f);
  return 0;
}
int io_uring_unregister_eventfd(io_uring* u) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  Ring* r = ringOf(u);
  if (!r->ev) return -ENXIO;
  fileUnref(r->ev); r->ev = nullptr;
  return 0;
}
void io_uring_queue_exit(io_uring* u) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  Ring* r = ringOf(u);
  r->closed = true;
  while (!r->ops.empty()) post(r->ops[0], -ECANCELED);
  if (r->ev) { fileUnref(r->ev); r->ev = nullptr; }
  free(u->sq.sqes); free(u->cq.cqes);
  close(r->fd);
}
int io_uring_submit(io_uring* u) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  Ring* r = ringOf(u);
  Vec<Op*> ops;
  int n = 0;
  for (; u->sq.sqe_head != u->sq.sqe_tail; ++u->sq.sqe_head, ++n) {
    io_uring_sqe* q = &u->sq.sqes[u->sq.sqe_head & u->sq.ring_mask];
    Op* o = new (malloc(sizeof(Op))) Op();
    o->ring = r; o->seq = ++g_opSeq; o->opcode = q->opcode; o->fd = q->fd; o->user = q->user_data;
    o->state = OP_ARMED; o->retrying = o->started = false; o->outAddr = nullptr; o->outLen = nullptr; o->buf = nullptr;
    o->flags = 0; o->target = 0; o->f = fileGet(q->fd);
    if (o->f) fileRef(o->f);
    memset(&o->vc, 0, sizeof(o->vc));
    hbRelease(&o->vc);
    switch (q->opcode) {
    case IORING_OP_CONNECT:
      memset(&o->addr, 0, sizeof(o->addr));
      o->addr.len = (socklen_t)q->off;
      checkMem((void*)q->addr, o->addr.len, false, PC);
      memcpy(&o->addr.s, (void*)q->addr, o->addr.len);
      break;
    case IORING_OP_ACCEPT:
      o->outAddr = (sockaddr*)q->addr; o->outLen = (socklen_t*)q->addr2; o->flags = (int)q->accept_flags;
      break;
    case IORING_OP_RECVMSG: case IORING_OP_SENDMSG: {
      const msghdr* m = (const msghdr*)q->addr;
      checkMem(m, sizeof(*m), false, PC);
      checkMem(m->msg_iov, m->msg_iovlen * sizeof(iovec), false, PC);
      if (m->msg_iovlen > 1024) { o->opcode = -EMSGSIZE; break; }
      for (size_t i = 0; i < m->msg_iovlen; ++i) o->iov.push_back(m->msg_iov[i]);
      break;
    }
    case IORING_OP_READ: o->buf = (uint64_t*)q->addr; checkMem(o->buf, 8, true, PC); break;
    case IORING_OP_ASYNC_CANCEL:
      o->flags = (int)q->cancel_flags; o->target = q->addr;
      break;
    case IORING_OP_NOP: break;
    default: traceOp("uring: unknown operation %d", (int)q->opcode); break;   // Completes with EINVAL.
    }
    traceOp("uring: op %llu submitted: %s fd %d", (unsigned long long)o->seq, q->opcode == IORING_OP_CONNECT ? "connect" : q->opcode == IORING_OP_ACCEPT ? "accept" :
      q->opcode == IORING_OP_RECVMSG ? "recvmsg" : q->opcode == IORING_OP_SENDMSG ? "sendmsg" : q->opcode == IORING_OP_READ ? "read" : "cancel", q->fd);
    r->ops.push_back(o); ops.push_back(o);
  }
  r->sqHead = r->sqTail = u->sq.sqe_tail;
  for (Op* o : ops) {
    if (o->state != OP_ARMED) continue;   // Canceled by the neighbour.
    if (o->opcode == IORING_OP_NOP) { complete(o, 0); continue; }
    if (o->opcode < 0) { complete(o, o->opcode); continue; }
    if (!o->f && (o->opcode != IORING_OP_ASYNC_CANCEL || (o->flags & IORING_ASYNC_CANCEL_FD))) { complete(o, -EBADF); continue; }
    attempt(o);
  }
  return n;
}
unsigned io_uring_peek_batch_cqe(io_uring* u, io_uring_cqe** out, unsigned count) {
  schedPoint(OP_SYSCALL, nullptr, PC);
  Ring* r = ringOf(u);
  while (!r->posted.empty() && r->cqTail - r->cqHead < r->cqSize) {
    Cqe& c = r->posted[0];
    io_uring_cqe* q = &u->cq.cqes[r->cqTail++ & u->cq.ring_mask];
    memset(q, 0, sizeof(*q));
    q->user_data = c.user; q->res = c.res;
    hbAcquire(&c.vc);
    r->posted.erase(r->posted.begin());
  }
  unsigned n = r->cqTail - r->cqHead;
  if (n > count) n = count;
  for (unsigned i = 0; i < n; ++i) out[i] = &u->cq.cqes[(r->cqHead + i) & u->cq.ring_mask];
  return n;
}
}
