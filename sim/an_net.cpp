#include "mg/net/DomainToIP.h"
#include "an_net.h"
#include <cstring>

namespace sim {
using namespace mg::net;

void makeFrame(Bytes& out, uint8_t salt, uint8_t poster, uint32_t seq, uint32_t len) {
  out.resize(FRAME_HDR + len);
  out[0] = 0xA7; out[1] = salt; out[2] = poster; out[3] = (uint8_t)seq; out[4] = (uint8_t)(seq >> 8);
  out[5] = (uint8_t)len; out[6] = (uint8_t)(len >> 8);
  for (uint32_t i = 0; i < len; ++i) out[FRAME_HDR + i] = frameByte(salt, poster, seq, i);
}
void Parser::feed(const uint8_t* d, size_t n) {
  for (size_t i = 0; i < n; ++i, ++total) {
    uint8_t b = d[i];
    unsigned long long at = total;
    if (nhdr < FRAME_HDR) {
      hdr[nhdr++] = b;
      if (nhdr == 1) SIM_CHECK(b == 0xA7, props, "data", "%s %d: a wrong byte at %llu, a start of a frame is expected", who, id, at);
      if (nhdr < FRAME_HDR) continue;
      uint8_t p = hdr[2]; uint32_t s = hdr[3] | (uint32_t)hdr[4] << 8;
      SIM_CHECK(p < POSTERS, props, "data", "%s %d: a wrong byte near %llu", who, id, at);
      SIM_CHECK(hdr[1] == (p == P_BCAST ? 0 : salt), props, "data", "%s %d: data of another connection or life near %llu", who, id, at);
      if (p == P_BCAST && next[p] < s) next[p] = s;                    // Not all the broadcasts go to everybody.
      SIM_CHECK(s == next[p], props, "order", "%s %d: block %u of poster %d came instead of block %u near %llu", who, id, s, (int)p, next[p], at);
      ++next[p];
      len = hdr[5] | (uint32_t)hdr[6] << 8; pos = 0;
      if (len == 0) nhdr = 0;
      continue;
    }
    SIM_CHECK(b == frameByte(hdr[1], hdr[2], hdr[3] | (uint32_t)hdr[4] << 8, pos), props, "data",
      "%s %d: a wrong byte at %llu, position %u of %u in block %u of poster %d", who, id, at, pos, len, hdr[3] | (unsigned)hdr[4] << 8, (int)hdr[2]);
    if (++pos == len) nhdr = 0;
  }
}
Buffer::Ptr cutBuffers(const uint8_t* d, size_t n, bool empties, bool slack) {
  Buffer::Ptr head; Buffer* last = nullptr;
  auto add = [&](Buffer::Ptr&& b) {
    Buffer* p = b.GetPointer();
    if (last) last->myNext = std::move(b); else head = std::move(b);
    last = p;
  };
  int cuts = 0;
  size_t mean = 1 + op(3) * 200;
  while (n > 0 || !last) {
    if (empties && op(3) == 0) {
      switch (op(3)) {
      case 0: add(BufferRaw::NewShared()); break;
      case 1: add(BufferCopy::NewShared()); break;
      case 2: add(BufferRaw::NewShared(d, 0u)); break;
      }
      probe("empty_buffer");
      if (n == 0) break;
    }
    size_t k = n;
    if (cuts < 60 && op(3)) { k = 1 + op((uint32_t)(mean * 2)); ++cuts; }
    if (k > n) k = n;
    if (k == 0) break;
    if (k <= theBufferCopySize && op(3) == 0) {
      BufferCopy::Ptr b = BufferCopy::NewShared();
      memcpy(b->myCopyData, d, k);
      b->myPos = (uint32_t)k;
      add(std::move(b));
    } else if (!slack || op(2)) add(BufferRaw::NewShared(d, (uint32_t)k));
    else add(BufferRaw::NewShared(d, (uint32_t)k, (uint32_t)k + op(3)));
    d += k; n -= k;
  }
  if (empties && op(4) == 0) add(BufferRaw::NewShared());
  return head;
}
BufferLink* cutLinks(const uint8_t* d, size_t n, bool empties, bool slack) {
  BufferLink* head = nullptr; BufferLink** tail = &head;
  uint32_t links = 1 + op(4);
  for (uint32_t i = 0; i < links; ++i) {
    size_t k = i + 1 == links ? n : (n == 0 ? 0 : op((uint32_t)n + 1));
    if (k == 0 && !empties && i + 1 != links) continue;
    BufferLink* l;
    if (k == 0 && op(3) == 0) l = new BufferLink();
    else if (k == 0 && !empties) break;
    else l = new BufferLink(cutBuffers(d, k, empties, slack));
    *tail = l; tail = &l->myNext;
    d += k; n -= k;
  }
  if (!head) head = new BufferLink();
  return head;
}

// ------------------------------------------------------------------- Conn ----
void Conn::reset() {
  posted = connected = closed = isTask = connectCalled = wantConnect = closeAsked = shutAsked = shutCounts = failExpected = neverConnect = false;
  errors = connErrors = 0; lastError = connError = 0; onSendAtShut = 0;
  postMs = connectMs = errorMs = closeMs = minConnectMs = 0;
  inCb = false; cbName = ""; lastCbEnd = 0; lateUse = false; blocked = true; wakeInv = evStart = 0; evs = 0; deadline = UINT64_MAX; rescheduled = false;
  memset(seq, 0, sizeof(seq)); postedBytes = onSendBytes = 0; recvCalls = recvCbs = leftover = 0; paused = true; expectOnError = 0; fd = -1;
  quiet = direct = silent = false; rxLimit = UINT64_MAX;
  file = failFile = 0; sendErrors = recvErrors = 0;
}
// Injected failures of the operations of a living connection must be reported.
static World* g_failWorld;
static bool ioFailHook(uint64_t file, bool, int err) {
  World* w = g_failWorld;
  Conn* c = nullptr;
  for (Conn* x : w->conns) if (x->posted && !x->closed && x->file == file) c = x;
#if !MG_IOCORE_USE_IOURING
  if (!c) {
    c = w->cur[self()];
    if (c && (c->file || !c->posted || c->closed || (c->failFile && c->failFile != file))) c = nullptr;
  }
#endif
  if (!c) return false;
  if (err) { c->failFile = file; probe("io_failed"); }
  return true;
}
void World::failIo() { g_failWorld = this; g_ioFail = ioFailHook; }
World::~World() { g_ioFail = nullptr; }
void Conn::checkFails() {
  if (!failFile) return;
  IoFail f = ioFailOf(failFile);
  if (f.dirty || closeAsked || shutAsked || deleted || (!f.sendErr && !f.recvErr)) return;
  SIM_CHECK(errors, "C20 C22", "unreported", "socket %d: a failed %s isn't reported: %s", id, f.sendErr ? "send" : "receive", state());
  if (ssl) {
    SIM_CHECK(sendErrors + recvErrors + connErrors, "C20 C23", "unreported", "socket %d: a failed %s isn't reported in details: %s", id, f.sendErr ? "send" : "receive", state());
    return;
  }
  // One of them is enough.
  SIM_CHECK((f.sendErr && sendErrors) || (f.recvErr && recvErrors), "C20 C22", "unreported", "socket %d: a failed %s isn't reported in details: %s", id, f.sendErr ? "send" : "receive", state());
  SIM_CHECK(lastError == (uint32_t)mg::box::ErrorCodeFromErrno(sendErrors ? f.sendErr : f.recvErr), "C20 C22", "wrong-error", "socket %d: the error of a failed %s is %u: %s", id, sendErrors ? "send" : "receive", lastError, state());
  probe("failure_reported");
}
const char* Conn::state() {
  static char b[400];
  snprintf(b, sizeof(b), "[socket %d life %d posted %d connected %d closed %d closeAsked %d shut %d errors %d(%u) posted bytes %llu sent %llu received %llu+%llu recv calls %llu cbs %llu paused %d events %d]",
    id, lives, posted, connected, closed, closeAsked, shutAsked, errors, lastError, (unsigned long long)postedBytes, (unsigned long long)onSendBytes,
    (unsigned long long)rx.total, (unsigned long long)leftover, (unsigned long long)recvCalls, (unsigned long long)recvCbs, paused, evs);
  return b;
}
void Conn::freeHeld() {
  // Only harness' memory.
  std::vector<void*> h;
  { Atomic a; h.swap(held); }
  for (void* p : h) free(p);
}
void Conn::sendBytes(const uint8_t* d, size_t n, bool cb) {
  bool viaPost = !cb || (!direct && op(3) == 0);
  auto hold = [&]() -> uint8_t* {
    uint8_t* m = (uint8_t*)malloc(n ? n : 1);
    memcpy(m, d, n);
    Atomic a;
    held.push_back(m);
    return m;
  };
  // The big ones are usually in one piece.
  uint32_t how = minLen && op(4) ? 1 : op(7);
  switch (how) {
  case 0: if (viaPost) sock->PostSendCopy(d, n); else sock->SendCopy(d, n); break;
  case 1: { uint8_t* m = hold(); if (viaPost) sock->PostSendRef(m, n); else sock->SendRef(m, n); break; }
  case 2: { Buffer::Ptr b = cutBuffers(hold(), n, empties, true); if (viaPost) sock->PostSendRef(b.GetPointer()); else sock->SendRef(b.GetPointer()); break; }
  case 3: { Buffer::Ptr b = cutBuffers(hold(), n, empties, true); if (viaPost) sock->PostSendRef(std::move(b)); else sock->SendRef(std::move(b)); break; }
  case 4: { BufferLink* l = cutLinks(hold(), n, empties, true); if (viaPost) sock->PostSendMove(l); else sock->SendMove(l); break; }
  case 5: { Buffer::Ptr b = cutBuffers(d, n, empties, true); if (viaPost) sock->PostSendCopy(b.GetPointer()); else sock->SendCopy(b.GetPointer()); break; }
  case 6: {
    BufferLink* l = cutLinks(d, n, empties, true);
    if (viaPost) sock->PostSendCopy(l); else sock->SendCopy(l);
    while (l) { BufferLink* nx = l->myNext; delete l; l = nx; }
    break;
  }
  }
}
void Conn::sendFrame(int poster, bool cb) {
  Bytes f;
  uint32_t len = inSize(maxLen);
  if (len < minLen) len = minLen + op(1000);
  {
    Atomic a;
    makeFrame(f, saltOut, (uint8_t)poster, seq[poster], len);
    ++seq[poster]; postedBytes += f.size(); ++activeSends;
  }
  sendBytes(f.data(), f.size(), cb);
  Atomic a;
  --activeSends;
  // The local copy can be changed right away.
  memset(f.data(), 0x11, f.size());
}
// One chain of buffers for many sockets. They must not change it.
void broadcast(World* w, uint32_t maxLen, bool empties) {
  Bytes f;
  std::vector<Conn*> to;
  { Atomic a; makeFrame(f, 0, P_BCAST, w->bcastSeq++, inSize(maxLen)); }
  uint8_t* m = (uint8_t*)malloc(f.size());
  memcpy(m, f.data(), f.size());
  {
    Atomic a;
    w->held.push_back(m);
    for (Conn* c : w->conns)
      if (!c->deleted && !c->blocked && !c->quiet && !c->silent && c->sock && op(4)) { ++c->active; c->postedBytes += f.size(); ++c->activeSends; to.push_back(c); }
  }
  if (to.size() > 1) probe("broadcast");
  Buffer::Ptr b = cutBuffers(m, f.size(), empties || op(2), true);
  for (Conn* c : to) {
    switch (op(3)) {
    case 0: c->sock->PostSendRef(b.GetPointer()); break;
    case 1: { Buffer::Ptr copy(b); c->sock->PostSendRef(std::move(copy)); break; }
    case 2: c->sock->PostSendMove(new BufferLink(b)); break;
    }
    { Atomic a; --c->activeSends; }
    c->leave();
  }
}
void Conn::recv(bool cb) {
  uint32_t n = 1 + inSize(5000);
  { Atomic a; ++recvCalls; paused = false; }
  traceOp("socket %d recv(%u) cb %d", id, n, cb);
  if (cb && (direct || op(3))) sock->Recv(n); else sock->PostRecv(n);
}
void Conn::close(int poster, bool cb) {
  { Atomic a; closeAsked = true; }
  // Something unfinished must not survive the close.
  if (w->reuse && op(2)) { if (op(2)) recv(cb); else sendFrame(poster, cb); }
  sock->PostClose();
}
void Conn::shutdown() {
  {
    Atomic a;
    if (!shutAsked) onSendAtShut = onSendBytes;
    shutAsked = true;
    if (!isTask || connectCalled) shutCounts = true;
  }
  sock->PostShutdown();
}
void Conn::del() {
  sock->Delete();
}
void Conn::randomAction(int poster, bool cb) {
  switch (op(12)) {
  case 0: case 1: case 2: case 3: sendFrame(poster, cb); break;
  case 4: case 5: recv(cb); break;
  case 6: wakeup(); break;
  case 7: if (cb) { { Atomic a; rescheduled = true; } sock->Reschedule(); } else wakeup(); break;
  case 8:
    if (cb) { uint64_t d = nowMs() + op(50); deadline = d; sock->SetDeadline(d); }
    else {
      bool was; { Atomic a; was = closed; }
      bool isConn = sock->IsConnected(), isClosed = sock->IsClosed();
      if (was) {
        SIM_CHECK(isClosed, "C20", "state", "socket %d isn't closed after its close event", id);
        SIM_CHECK(!isConn, "C20", "state", "socket %d is connected after its close event", id);
      }
    }
    break;
  case 9: if (w->chaos && op(3) == 0) shutdown(); break;
  case 10: if (w->chaos && op(4) == 0) close(poster, cb); break;
  case 11: if (cb) sleepNs((uint64_t)(1 + op(500)) * US); break;
  }
}
Conn::Cb::Cb(Conn* c, const char* name) : c(c) {
  Atomic a;
  SIM_CHECK(!c->inCb, "C20", "overlap", "socket %d: %s is called during %s", c->id, name, c->cbName);
  SIM_CHECK(!c->closed, "C20", "after-close", "socket %d: %s is called after the close event", c->id, name);
  SIM_CHECK(c->posted, "C20", "not-posted", "socket %d: %s is called, but it isn't posted", c->id, name);
  SIM_CHECK(!c->expectOnError || strcmp(name, "OnError") == 0, "C20", "no-error", "socket %d: a detailed error isn't followed by OnError, but %s", c->id, name);
  SIM_CHECK(c->sock->IsInWorkerNow(), "C20", "not-in-worker", "socket %d: %s isn't called in its worker", c->id, name);
  SIM_CHECK(!c->w->dead, "C18 C20", "core-stopped", "socket %d: %s is called, but the core is stopped", c->id, name);
  c->inCb = true; c->cbName = name;
  traceOp("cb: socket %d %s", c->id, name);
  payloadWrite(c->cell, sizeof(c->cell), "socket callbacks");
  ++c->cell[0];
}
Conn::Cb::~Cb() { Atomic a; if (!c) return; c->inCb = false; c->lastCbEnd = stepNo(); }
void Conn::checkErr(mg::box::Error* e, const char* what) {
  SIM_CHECK(e != nullptr, "C20", "null-error", "socket %d: %s without an error", id, what);
  SIM_CHECK(e->myCode != mg::box::ERR_BOX_NONE, "C20 C21", "null-error", "socket %d: %s with the code of success", id, what);
  lastError = e->myCode;
}
void Conn::OnConnect() {
  Cb cb(this, "OnConnect");
  {
    Atomic a;
    SIM_CHECK(!connected, "C20", "connect-twice", "socket %d: a second OnConnect", id);
    SIM_CHECK(recvCbs == 0 && onSendBytes == 0, "C20 C23", "data-first", "socket %d: data events came before OnConnect", id);
    SIM_CHECK(connErrors == 0, "C20 C21", "connect-after-error", "socket %d: OnConnect after OnConnectError", id);
    SIM_CHECK(!neverConnect, "C21 C23", "false-connect", "socket %d: connected, but it could not", id);
    connected = true; connectMs = nowMs();
    SIM_CHECK(connectMs >= minConnectMs, "C21", "early-connect", "socket %d: connected at %llu ms, before its delay until %llu ms", id, (unsigned long long)connectMs, (unsigned long long)minConnectMs);
  }
  bool is = sock->IsConnected();
  { Atomic a; SIM_CHECK(is || closeAsked || errors || deleted || shutAsked || failExpected || w->lossy, "C20", "state", "socket %d: not connected in OnConnect", id); }
  SIM_CHECK(!sock->IsClosed(), "C20", "state", "socket %d: closed in OnConnect", id);
  probe("connected");
  if (w->onConnect) w->onConnect(this);
  if (silent) return;
  if (w->reuse && w->chaos && !quiet && op(8) == 0) { close(P_CB, true); return; }
  if (op(4) == 0) {
    bool v = op(2), mayFail = faultEnabled(F_sockopt_fail); mg::box::Error::Ptr err;
    bool ok = sock->SetNoDelay(v, err);
    {
      Atomic a;
      SIM_CHECK(ok == !err.IsSet() && (ok || mayFail), "C20", "nodelay", "socket %d: the setting of no-delay returned %d, error: %s", id, ok, err.IsSet() ? err->myMessage.c_str() : "none");
      if (ok && fd >= 0 && sockOptNoDelay(fd) >= 0) SIM_CHECK((sockOptNoDelay(fd) != 0) == v, "C20", "nodelay", "socket %d: no-delay is %d after being set to %d", id, sockOptNoDelay(fd), v);
    }
    if (ok) probe("nodelay");
    if (op(2)) {
      err.Clear(); v = op(2);
      uint32_t ms = op(2) ? 1 + op(100) * 1000 : 1 + op(3000);
      ok = sock->SetKeepAlive(v, ms, err);
      Atomic a;
      SIM_CHECK(ok == !err.IsSet() && (ok || mayFail), "C20", "keepalive", "socket %d: the setting of keep-alive returned %d, error: %s", id, ok, err.IsSet() ? err->myMessage.c_str() : "none");
      int on, idle, total;
      if (ok && fd >= 0 && sockOptKeepAlive(fd, on, idle, total)) {
        SIM_CHECK((on != 0) == v, "C20", "keepalive", "socket %d: keep-alive is %d after being set to %d", id, on, v);
        if (v) {
          SIM_CHECK(idle >= 1 && (uint32_t)idle * 1000 <= std::max(1000u, ms), "C20", "keepalive", "socket %d: keep-alive starts after %d s, asked for %u ms", id, idle, ms);
          SIM_CHECK(total >= idle * 1000, "C20", "keepalive", "socket %d: a sent piece times out after %d ms with keep-alive after %d s", id, total, idle);
        }
      }
      if (ok) probe("keepalive");
    }
  }
  if (quiet) { recv(true); return; }
  if (w->draining || op(lives ? 2 : 8)) recv(true);
  int n = (int)op(3);
  while (n-- > 0 && budget-- > 0) randomAction(P_CB, true);
}
void Conn::OnConnectError(mg::box::Error* e) {
  Cb cb(this, "OnConnectError");
  checkErr(e, "OnConnectError");
  SIM_CHECK(!connected, "C20 C21", "error-after-connect", "socket %d: OnConnectError after OnConnect", id);
  SIM_CHECK(++connErrors == 1, "C20", "two-errors", "socket %d: a second OnConnectError", id);
  connError = e->myCode;
  ++expectOnError;
  probe("connect_error");
}
void Conn::OnRecv(BufferReadStream& s) {
  Cb cb(this, "OnRecv");
  uint64_t size = s.GetReadSize();
  {
    Atomic a;
    SIM_CHECK(connected, "C20 C23", "data-first", "socket %d: OnRecv before OnConnect", id);
    ++recvCbs;
    SIM_CHECK(recvCbs <= recvCalls, "C19 C20", "unasked-recv", "socket %d: %llu receive callbacks for %llu requests", id, (unsigned long long)recvCbs, (unsigned long long)recvCalls);
    SIM_CHECK(size > leftover, "C19", "empty-recv", "socket %d: OnRecv with %llu bytes, %llu of them are old", id, (unsigned long long)size, (unsigned long long)leftover);
  }
  uint64_t take = size;
  if (!w->draining && !quiet && op(3) == 0) { take = op((uint32_t)(size < 100000 ? size : 100000) + 1); probe("partial_read"); }
  uint8_t tmp[700];
  // The same data by all the ways.
  if (op(3) == 0) {
    const Buffer* b = s.GetReadPos();
    uint64_t n = 0;
    Bytes all;
    for (; b && n < size; b = b->myNext.GetPointer()) { all.insert(all.end(), b->myRData, b->myRData + b->myPos); n += b->myPos; }
    SIM_CHECK(n == size, "C19", "read-stream", "socket %d: the stream has %llu bytes instead of %llu", id, (unsigned long long)n, (unsigned long long)size);
    uint64_t k = size < sizeof(tmp) ? size : sizeof(tmp);
    s.PeekData(tmp, k);
    SIM_CHECK(memcmp(tmp, all.data(), k) == 0, "C19", "read-stream", "socket %d: PeekData() differs from the buffers", id);
    if (take > 0) { Parser copy = rx; { Atomic a; copy.feed(all.data(), take); } }
  }
  uint64_t left = take;
  while (left > 0) {
    uint64_t k = left < sizeof(tmp) ? left : sizeof(tmp);
    if (k > 1 && op(4) == 0) k = 1 + op((uint32_t)k);
    if (op(4) == 0) { s.PeekData(tmp, k); s.SkipData(k); } else s.ReadData(tmp, k);
    { Atomic a; rx.feed(tmp, k); }
    left -= k;
  }
  SIM_CHECK(s.GetReadSize() == size - take, "C19", "read-stream", "socket %d: %llu bytes remain after reading %llu of %llu", id, (unsigned long long)s.GetReadSize(), (unsigned long long)take, (unsigned long long)size);
  { Atomic a; leftover = size - take; paused = true; }
  SIM_CHECK(rx.total + leftover <= rxLimit, "C23", "data-without-trust", "socket %d: %llu bytes are received, although the sides can't agree", id, (unsigned long long)(rx.total + leftover));
  probe("received");
  if (quiet) { if (afterRecv) afterRecv(this); recv(true); return; }
  if (w->draining || op(5)) recv(true);
  int n = (int)op(3);
  while (n-- > 0 && budget-- > 0) randomAction(P_CB, true);
}
void Conn::OnRecvError(mg::box::Error* e) {
  Cb cb(this, "OnRecvError");
  checkErr(e, "OnRecvError");
  SIM_CHECK(connected || ssl, "C20 C21", "data-first", "socket %d: OnRecvError before OnConnect", id);
  ++recvErrors;
  ++expectOnError;
  probe("recv_error");
}
void Conn::OnSend(uint32_t n) {
  Cb cb(this, "OnSend");
  {
    Atomic a;
    SIM_CHECK(connected, "C20 C23", "data-first", "socket %d: OnSend before OnConnect", id);
    SIM_CHECK(n > 0, "C19", "zero-send", "socket %d: OnSend of 0 bytes", id);
    onSendBytes += n;
    SIM_CHECK(onSendBytes <= postedBytes, "C19", "send-count", "socket %d: %llu bytes are reported as sent of %llu posted", id, (unsigned long long)onSendBytes, (unsigned long long)postedBytes);
  }
  probe("sent");
  bool all; { Atomic a; all = onSendBytes == postedBytes && activeSends == 0; }
  // Nothing is referenced any more.
  if (all && op(2)) freeHeld();
  int k = quiet ? 0 : (int)op(2);
  while (k-- > 0 && budget-- > 0) randomAction(P_CB, true);
}
void Conn::OnSendError(mg::box::Error* e) {
  Cb cb(this, "OnSendError");
  checkErr(e, "OnSendError");
  SIM_CHECK(connected || ssl, "C20 C21", "data-first", "socket %d: OnSendError before OnConnect", id);
  ++sendErrors;
  ++expectOnError;
  probe("send_error");
}
void Conn::OnError(mg::box::Error* e) {
  Cb cb(this, "OnError");
  checkErr(e, "OnError");
  SIM_CHECK(++errors == 1, "C20", "two-errors", "socket %d: a second OnError", id);
  expectOnError = 0; errorMs = nowMs();
  SIM_CHECK(w->lossy || failExpected || neverConnect || shutAsked, "C20 C19", "false-error", "socket %d: an error %u '%s' on an intact connection %s", id, lastError, e->myMessage.c_str(), state());
  probe("error");
  if (budget > 0 && !quiet && op(3) == 0) { --budget; randomAction(P_CB, true); }
}
void Conn::OnClose() {
  bool again = false;
  {
    Cb cb(this, "OnClose");
    {
      Atomic a;
      SIM_CHECK(errors || closeAsked || deleted || shutAsked || failExpected || w->lossy, "C20 C19", "false-close", "socket %d is closed for no reason %s", id, state());
      SIM_CHECK(!expectOnError, "C20", "no-error", "socket %d: a detailed error isn't followed by OnError", id);
      SIM_CHECK(connected || errors || closeAsked || deleted || shutAsked || ssl, "C21", "silent-failure", "socket %d: closed without a connect or an error", id);
      checkFails();
      quietEnds.push_back(connected && !errors && !closeAsked && !deleted && !shutAsked);
      closed = true; closeMs = nowMs(); w->cur[self()] = nullptr;
    }
    SIM_CHECK(sock->IsClosed(), "C20", "state", "socket %d: not closed in OnClose", id);
    SIM_CHECK(!sock->IsConnected(), "C20", "state", "socket %d: connected in OnClose", id);
    probe("closed");
    // Sends of a closed socket are dropped together with their data.
    if (!(w->reuse && !deleted) && op(4) == 0) {
      Bytes f;
      { Atomic a; f.resize(op(2000)); }
      uint8_t* m = (uint8_t*)malloc(f.size() + 1);
      { Atomic a; held.push_back(m); }
      BufferLink* l = cutLinks(m, f.size(), empties, true);
      if (op(2)) sock->SendMove(l); else sock->PostSendMove(l);
      if (op(4) == 0) sock->SendCopy(m, f.size());
      probe("send_closed");
    }
    if (w->onClose) w->onClose(this);
    {
      Atomic a;
      ++lives;
      // Whoever used the socket during its close could leave something in it.
      again = w->reuse && !w->ending && !deleted && lives < 3 && active == 0 && !lateUse && op(4);
      if (again) { blocked = restarting = true; heldOld.insert(heldOld.end(), held.begin(), held.end()); held.clear(); }
    }
    if (!again) freeHeld();
    else {
      for (void* p : heldOld) free(p);
      heldOld.clear();
    }
    if (!again) {
      bool d = false;
      {
        Atomic a;
        if (!deleted && active == 0 && op(2)) { d = deleted = true; }
        posted = false;
      }
      cb.~Cb(); cb.c = nullptr;
      if (d) { probe("delete_in_close"); del(); }
      return;
    }
  }
  probe("reused");
  w->restart(this);
}
void Conn::OnEvent() {
  Cb cb(this, "OnEvent");
  {
    Atomic a;
    evStart = stepNo(); ++evs; w->cur[self()] = this;
if (deadline != UINT64_MAX && nowMs() >= deadline && deadline != 0) probe("deadline");
    deadline = UINT64_MAX; rescheduled = false;
  }
  if (isTask && !connectCalled && wantConnect && (w->draining || op(2))) {
    mg::aio::TCPSocketConnectParams p;
    p.myEndpoint = endpoint;
    p.myDelay = mg::box::TimeLimit(mg::box::TimeDuration(delayMs));
    if (delayMs == 0 && op(2)) p.myDelay.Reset();
    p.myAddrFamily = (mg::net::SockAddrFamily)family;
    if (params) p = params();
    { Atomic a; connectCalled = true; if (!params) minConnectMs = nowMs() + delayMs; }
    sock->Connect(p);
    probe("connect_from_task");
  }
  if (isTask && !connectCalled && wantConnect) { { Atomic a; rescheduled = true; } sock->Reschedule(); }
  if (budget > 0 && !quiet && op(3) == 0) { --budget; randomAction(P_CB, true); }
}

void warmResolver() {
  bool go = false; int left = 24;
  auto cb = [&](const char*, const std::vector<mg::net::DomainEndpoint>&, mg::box::Error*) {
    while (true) { { Atomic a; if (go) { --left; return; } } sleepNs(MS); }
  };
  std::vector<mg::net::DomainToIPRequest> reqs(24);
  for (int i = 0; i < 24; ++i) {
    mg::net::DomainToIPAsync(reqs[i], "127.0.0.1", mg::box::theTimePointInf, cb);
    if (i == 0) sleepNs(MS);
  }
  { Atomic a; go = true; }
  waitUntil([&] { return left == 0; }, NEVER);
  reqs.clear();
  flushResolver();
}
void flushResolver() {
  std::vector<mg::net::DomainEndpoint> eps; mg::box::Error::Ptr err;
  mg::net::DomainToIPBlocking("127.0.0.1", mg::box::theTimePointInf, eps, err);
  // It frees the last request after its callback.
  sleepNs(50 * MS);
}
void checkLeaks(uint64_t mark, const char* props) {
  // The pooled buffers live in big blocks. All the threads are gone and returned their ones.
  const size_t big = 30 * sizeof(BufferCopy);
  size_t sz = 0; void* pc = nullptr; uint64_t units = 0, units2 = 0;
  // The thread of the resolver stays. It could be slowed down.
  for (int i = 0; i < 150; ++i) {
    { Atomic a; if (liveSmall(mark, big, &sz, &pc, &units, sizeof(BufferCopy)) == 0) break; }
    sleepNs((uint64_t)i * MS);
  }
  Atomic a;
  units = 0;
  uint64_t n = liveSmall(mark, big, &sz, &pc, &units, sizeof(BufferCopy));
  SIM_CHECK(n == 0, props, "leak", "%llu memory blocks leaked, the first is of %zu bytes, allocated at %p", (unsigned long long)n, sz, pc);
  if (units == 0) return;
  {
    Buffer::Ptr head;
    for (uint64_t i = 0; i < units; ++i) { Buffer::Ptr b = BufferCopy::NewShared(); b->myNext = std::move(head); head = std::move(b); }
    liveSmall(mark, big, &sz, &pc, &units2, sizeof(BufferCopy));
    SIM_CHECK(units2 == units, props, "buffer-leak", "some of %llu pooled buffers aren't returned to the pool", (unsigned long long)units);
  }
}
// ------------------------------------------------------------------- Peer ----
void Peer::run(World* w) {
  Bytes out; size_t outPos = 0;
  uint8_t buf[2048];
  (void)w;
  uint32_t left = frames; uint32_t steps = 0;
  uint64_t stallEnd = 0;
  bool planDone = false;
  if (plan == PEER_STALL) stallEnd = now() + planAt * MS;
  for (;;) {
    ++steps;
    if (outPos == out.size() && left > 0) {
      uint32_t len = inSize(maxLen);
      makeFrame(out, saltOut, 0, seq++, len);
      outPos = 0; --left;
    }
    if (outPos < out.size()) {
      size_t k = out.size() - outPos;
      if (op(4) == 0) k = 1 + op((uint32_t)k);
      long rc = peerSendSome(fd, out.data() + outPos, k);
      if (rc > 0) { outPos += (size_t)rc; sent += (uint64_t)rc; if (outPos == out.size() && left == 0) allSent = true; }
      else if (errno != EAGAIN) { err = true; break; }
      if (op(4) == 0) sleepNs((uint64_t)(1 + op(50)) * 20 * US);
    } else allSent = true;
    if (!planDone && (plan == PEER_FIN ? outPos == out.size() && left == 0 : (plan == PEER_CLOSE || plan == PEER_RESET) && (sent >= planAt || (left == 0 && outPos == out.size())))) {
      if (op(2)) sleepNs((uint64_t)(1 + op(40)) * 100 * US);
      planDone = true;
      if (plan == PEER_FIN) { finSent = true; countFault(F_peer_fin); peerShutdown(fd, SHUT_WR); }
      else {
        closedByUs = true;
        if (plan == PEER_RESET) peerReset(fd); else { countFault(F_peer_fin); peerClose(fd); }
        fd = -1; done = true;
        return;
      }
    }
    if (stallEnd > now() && !w->draining && !w->ending) { countFault(F_peer_stall); sleepNs((uint64_t)(1 + op(20)) * MS); continue; }
    bool more = outPos < out.size() || left > 0;
    long rc = peerRecv(fd, buf, 1 + op(sizeof(buf)), more ? (steps < 200 ? 200 * US : 5 * MS) : NEVER);
    if (rc > 0) { rx.feed(buf, (size_t)rc); continue; }
    if (rc == -2) continue;
    if (rc == 0) { eof = true; if (more && op(2) == 0) { /* It can still send. */ } break; }
    err = true;
    break;
  }
  if (op(3) == 0) sleepNs((uint64_t)op(30) * MS);
  if (fd >= 0) { int f = fd; fd = -1; peerClose(f); }
  done = true;
}
}
