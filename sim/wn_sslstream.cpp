// SSL streams: engines connected by queues of bytes which are cut as wanted.
#include "an_net.h"
#include "an_ssl.h"
#include "mg/net/SSLStream.h"
#include "mg/net/SSLOpenSSL.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/sslerr.h>
#include <cstring>
#include <string>
#include <deque>

using namespace sim;
using mg::net::SSLStream; using mg::net::SSLContext;

namespace {
uint8_t byteAt(uint32_t salt, uint64_t i) { return (uint8_t)(salt * 37 + i * 29 + (i >> 8) * 11 + (i >> 16) * 5); }
struct Pair;
struct Eng {
  Pair* p = nullptr; bool client = false; int id = 0;
  SSLStream* s = nullptr; const SslModel* model = nullptr;
  std::deque<uint8_t> in;               // From the peer.
  std::deque<Bytes> held;               // Given by reference.
  // Plain phase.
  uint64_t plainTx = 0, plainRx = 0; bool connectCalled = false;
  // Encrypted phase.
  uint64_t tx = 0, rx = 0, netOut = 0; uint64_t budget = 0;
  uint64_t mustTx = 0;                  // Given while being connected and before the shutdown.
  bool shut = false; bool shutClean = false; bool everConnected = false;
  int lastState = 0; uint32_t lastErr = 0;
  uint32_t salt(bool plain) const { return (uint32_t)id * 2 + (plain ? 101 : 0) + 1; }
  int state() const { return s->IsClosed() ? 4 : s->IsClosingOrClosed() ? 3 : s->IsConnected() ? 2 : s->IsEncrypted() ? 1 : 0; }
  void check();
  void connect();
  void feed(bool all);
  void popNet();
  void popApp();
  void append(uint64_t n);
  void shutdown();
  void update();
};
struct Pair {
  Eng e[2]; int id = 0; int agreed = 0; SslModel *mc = nullptr, *ms = nullptr;
  uint64_t plain[2] = {0, 0}; bool startTls = false; std::string host; bool hostOk = false;
  // Corruption.
  int corDir = -1; uint64_t corAt = 0; int corKind = 0; uint32_t corLen = 1; bool corrupted = false, corInData = false; bool corruptDone = false;
  Eng& peer(Eng* x) { return x == &e[0] ? e[1] : e[0]; }
};
void Eng::check() {
  int st = state();
  SIM_CHECK(st >= lastState, "C27", "state", "stream %d: the state went back from %d to %d", id, lastState, st);
  SIM_CHECK(st != 2 || s->IsEncrypted(), "C27", "state", "stream %d is connected and not encrypted", id);
  SIM_CHECK(s->HasError() == (s->GetError() != 0), "C27", "state", "stream %d: a wrong error flag", id);
  SIM_CHECK(lastErr == 0 || s->GetError() == lastErr, "C27", "state", "stream %d: the error has changed", id);
  SIM_CHECK(!s->HasError() || st >= 3, "C27", "state", "stream %d has an error, but is not closed", id);
  if (st != lastState) traceOp("stream %d: state %d -> %d, error %u", id, lastState, st, s->GetError());
  lastState = st; lastErr = s->GetError();
  if (st == 2 && !everConnected) {
    everConnected = true;
    probe("connected");
    if (!p->corrupted) {
      SIM_CHECK(p->agreed != 0 || (client && p->ms->wantsCert()), "C27", "not-closed-on-failure", "stream %d is connected, although the sides can't agree", id);
      int v = s->GetVersion() == mg::net::SSL_VERSION_TLSv1_2 ? 12 : s->GetVersion() == mg::net::SSL_VERSION_TLSv1_3 ? 13 : 0;
      if (p->agreed) SIM_CHECK(v == p->agreed, "C27", "version", "stream %d: version %d instead of %d", id, v, p->agreed);
      mg::net::SSLCipher c = s->GetCipher();
      for (const SslModel* m : {p->mc, p->ms}) {
        uint32_t set = v == 12 ? m->c12 : m->c13;
        if (set) SIM_CHECK(c != mg::net::SSL_CIPHER_NONE && (v == 12 ? (int)c < 2 && (set >> c & 1) : (int)c >= 2 && (set >> ((int)c - 2) & 1)), "C27", "cipher", "stream %d: cipher %d is not allowed", id, (int)c);
      }
      if (!client && p->hostOk) SIM_CHECK(s->GetHostName() == p->host, "C27", "host", "stream %d: a wrong host name", id);
    }
  }
}
void Eng::connect() {
  if (client && !p->host.empty()) p->hostOk = s->SetHostName(p->host.c_str());
  connectCalled = true;
  s->Connect();
  check();
}
void Eng::feed(bool all) {
  Bytes b;
  {
    Atomic a;
    size_t n = in.size();
    if (!n) return;
    size_t k = all || op(3) == 0 ? n : op(2) ? 1 + op(n < 40 ? (uint32_t)n : 40) : 1 + op((uint32_t)n);
    b.assign(in.begin(), in.begin() + (long)k);
    in.erase(in.begin(), in.begin() + (long)k);
  }
  if (op(2)) { s->AppendNetInputCopy(b.data(), b.size()); probe("feed_copy"); }
  else { held.push_back(b); s->AppendNetInputRef(cutBuffers(held.back().data(), held.back().size(), false, false)); probe("feed_ref"); }
}
void Eng::popNet() {
  Buffer::Ptr h;
  uint64_t n = s->PopNetOutput(h), k = 0;
  Bytes out;
  for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) { out.insert(out.end(), b->myRData, b->myRData + b->myPos); k += b->myPos; }
  SIM_CHECK(k == n, "C27", "pop-size", "stream %d: the size of the network output is %llu instead of %llu", id, (unsigned long long)n, (unsigned long long)k);
  Eng& o = p->peer(this);
  if (!connectCalled) {
    Atomic a;
    for (uint8_t c : out) o.in.push_back(c);
    check();
    return;
  }
  int dir = client ? 0 : 1;
  if (p->corDir == dir && !p->corruptDone && netOut + out.size() > p->corAt && n) {
    size_t at = (size_t)(p->corAt > netOut ? p->corAt - netOut : 0);
    bool data = p->e[0].everConnected && p->e[1].everConnected;
    p->corInData = data; p->corruptDone = true; p->corrupted = true;
    countFault(p->corKind == 1 ? F_tls_truncate : F_tls_corrupt);
    traceOp("stream %d: the output is corrupted at %llu, kind %d", id, (unsigned long long)p->corAt, p->corKind);
    if (p->corKind == 0) out[at] = (uint8_t)(out[at] ^ (1u << choose(K_FAULTARG, 8)));
    else if (p->corKind == 1) out.erase(out.begin() + (long)at, out.begin() + (long)std::min(out.size(), at + p->corLen));
    else if (p->corKind == 2) { Bytes g; for (uint32_t i = 0; i < p->corLen; ++i) g.push_back((uint8_t)(choose(K_FAULTARG, 256))); out.insert(out.begin() + (long)at, g.begin(), g.end()); }
    else for (size_t i = at; i < out.size() && i < at + p->corLen; ++i) out[i] = (uint8_t)(i * 7 + 1);
    probe(data ? "corrupt_data" : "corrupt_handshake");
  }
  netOut += n;
  { Atomic a; for (uint8_t c : out) o.in.push_back(c); }
  check();
}
void Eng::popApp() {
  Buffer::Ptr h;
  bool isPlain = !connectCalled;
  // Otherwise it could be the beginning of the handshake of the peer.
  if (isPlain && !p->startTls) return;
  bool wasClosing = s->IsClosingOrClosed();
  uint64_t n = s->PopAppOutput(h), k = 0;
  Eng& o = p->peer(this);
  uint64_t limit = isPlain ? o.plainTx : o.tx;
  uint64_t& r = isPlain ? plainRx : rx;
  for (Buffer* b = h.GetPointer(); b; b = b->myNext.GetPointer()) {
    for (uint32_t i = 0; i < b->myPos; ++i) {
      SIM_CHECK(r < limit, "C27", "extra-bytes", "stream %d: %s byte %llu was not sent", id, isPlain ? "plain" : "decrypted", (unsigned long long)r);
      SIM_CHECK(b->myRData[i] == byteAt(o.salt(isPlain), r), "C27", "wrong-bytes", "stream %d: %s byte %llu is wrong", id, isPlain ? "plain" : "decrypted", (unsigned long long)r);
      ++r;
    }
    k += b->myPos;
  }
  SIM_CHECK(k == n, "C27", "pop-size", "stream %d: the size of the output is %llu instead of %llu", id, (unsigned long long)n, (unsigned long long)k);
  SIM_CHECK(!wasClosing || k == 0, "C27", "data-after-close", "stream %d outputs data after the close", id);
  check();
}
void Eng::append(uint64_t n) {
  Bytes b((size_t)n);
  bool isPlain = !connectCalled;
  bool wasConn = s->IsConnected();
  uint64_t& t = isPlain ? plainTx : tx;
  for (size_t i = 0; i < n; ++i) b[i] = byteAt(salt(isPlain), t + i);
  bool wasClosing = s->IsClosingOrClosed();
  if (!wasClosing) t += n;
  s->AppendAppInputCopy(b.data(), b.size());
  if (wasConn && s->IsConnected()) mustTx = tx;
  check();
}
void Eng::shutdown() {
  if (shut) return;
  int st = state();
  traceOp("stream %d: shutdown in state %d", id, st);
  shut = true;
  shutClean = st == 2;
  if (st == 2) mustTx = tx;
  s->Shutdown();
  check();
  SIM_CHECK(s->IsClosingOrClosed(), "C27", "shutdown", "stream %d is not closing after a shutdown in state %d", id, st);
  probe(st == 0 ? "shutdown_plain" : st == 1 ? "shutdown_handshake" : st == 2 ? "shutdown_connected" : "shutdown_late");
}
void Eng::update() {
  bool ok = s->Update();
  check();
  SIM_CHECK(ok || s->HasError(), "C27", "update", "stream %d: a failed update without an error", id);
}

struct SslRun {
  std::vector<SslModel*> models;
  std::vector<Pair*> pairs;
  uint32_t stopChance = 0;
  // What is possible now in the plain phase. True when encrypted.
  bool plainStep(Eng* e) {
    Pair* p = e->p;
    if (e->connectCalled) return true;
    if (e->client) {
      if (e->plainTx < p->plain[0]) { e->append(1 + op((uint32_t)(p->plain[0] - e->plainTx))); return false; }
      if (!p->startTls) { e->popNet(); e->connect(); return true; }
      // The acknowledge.
      if (e->plainRx == p->plain[1] && p->e[1].plainTx == p->plain[1] && p->e[1].connectCalled) { e->popNet(); e->connect(); return true; }
      return false;
    }
    if (e->plainRx == p->plain[0] && p->e[0].plainTx == p->plain[0]) {
      if (e->plainTx < p->plain[1]) { e->append(1 + op((uint32_t)(p->plain[1] - e->plainTx))); return false; }
      // Not necessarily popped by now.
      if (op(2) || p->corDir >= 0) e->popNet();
      e->connect();
      return true;
    }
    return false;
  }
  void step(Eng* e) {
    switch (op(6)) {
    case 0: case 1: e->feed(false); break;
    case 2: e->popApp(); break;
    case 3: e->popNet(); break;
    case 4: e->update(); break;
    default:
      if (!plainStep(e)) break;
      if (e->budget > 0) {
        uint64_t n = std::min<uint64_t>(e->budget, 1 + (op(8) == 0 ? inSize(40000) : inSize(700)));
        e->budget -= n;
        e->append(n);
      } else if (stopChance && op(stopChance) == 0) e->shutdown();
      else if (stopChance && op(stopChance * 40) == 0) e->shutdown();
    }
  }
  bool drainRound(Eng* e) {
    uint64_t a = e->netOut + e->rx + e->plainRx + e->plainTx;
    bool had = !e->in.empty();
    int st = e->state(); bool cc = e->connectCalled;
    e->feed(op(2)); e->update(); e->popApp();
    if (plainStep(e) && e->budget && !e->shut) { uint64_t n = e->budget; e->budget = 0; e->append(n); }
    e->popNet(); e->popApp();
    return had || a != e->netOut + e->rx + e->plainRx + e->plainTx || st != e->state() || cc != e->connectCalled;
  }
  void drain() {
    // All by one thread, mixed.
    int idle = 0;
    for (int round = 0; idle < 3; ++round) {
      SIM_CHECK(round < 200000, "C27", "endless", "the streams never stop talking");
      bool moved = false;
      for (Pair* p : pairs) for (Eng& e : p->e) moved |= drainRound(&e);
      idle = moved ? 0 : idle + 1;
    }
  }
};

void run(bool corrupt) {
  sslSeed(choose(K_CFG, 65536));
  sslWarmThreads(4);
  const char* text = mg::net::OpenSSLErrorToString(mg::net::OpenSSLPackError(SSL_ERROR_SYSCALL));
  SIM_CHECK(text && strcmp(text, "ssl_error_syscall") == 0, "C27", "error-text", "the text of the error is '%s'", text ? text : "");
  uint64_t mark = allocMark();
  SslRun r;
  uint32_t nctx = 1 + choose(K_CFG, 3), npairs = 1 + choose(K_CFG, 3), nfib = 1 + choose(K_CFG, 3);
  std::vector<bool> oks;
  for (uint32_t i = 0; i < nctx; ++i) {
    SslModel *c = new SslModel(), *s = new SslModel();
    bool ok;
    sslRandomPair(*c, *s, ok);
    r.models.push_back(c); r.models.push_back(s);
  }
  static const uint32_t stops[] = {0, 1, 4, 40};
  r.stopChance = stops[choose(K_CFG, 4)];
  std::vector<std::vector<Eng*>> per(nfib);
  for (uint32_t i = 0; i < npairs; ++i) {
    Pair* p = new Pair();
    uint32_t k = choose(K_CFG, nctx);
    p->mc = r.models[k * 2]; p->ms = r.models[k * 2 + 1]; p->id = (int)i;
    p->agreed = sslAgree(*p->mc, *p->ms);
    traceOp("pair %u: context %u, agreed %d", i, k, p->agreed);
    if (p->agreed) probe("agree"); else probe("disagree");
    if (in(3) == 0) { p->startTls = true; p->plain[0] = 1 + inSize(3000); p->plain[1] = 1 + inSize(600); }
    if (in(2)) p->host = std::string("host") + std::to_string(in(100)) + ".name";
    for (int j = 0; j < 2; ++j) {
      Eng& e = p->e[j];
      e.p = p; e.client = j == 0; e.id = (int)(i * 2 + (uint32_t)j);
      e.model = j == 0 ? p->mc : p->ms;
      e.budget = in(8) == 0 ? in(120000) : inSize(6000);
      per[choose(K_CFG, nfib)].push_back(&e);
    }
    if (corrupt && (i == 0 || choose(K_CFG, 2))) {
      p->corDir = (int)choose(K_FAULTARG, 2); p->corKind = (int)choose(K_FAULTARG, 4);
      p->corLen = 1 + inSize(200);
      p->corAt = choose(K_FAULTARG, 3) ? 1200 + choose(K_FAULTARG, 6000) : choose(K_FAULTARG, 1500);
    }
    r.pairs.push_back(p);
  }
  stage("working");
  std::vector<int> f;
  for (uint32_t i = 0; i < nfib; ++i) {
    uint32_t ops = 20 + in(300);
    f.push_back(spawn("ssl", [&, i, ops] {
      auto& v = per[i];
      if (v.empty()) return;
      for (Eng* e : v) { e->s = new SSLStream(const_cast<SslModel*>(e->model)->ctx); e->check(); }
      for (uint32_t k = 0; k < ops; ++k) {
        Eng* e = v[op((uint32_t)v.size())];
        r.step(e);
        if (op(8) == 0) yield();
        if (op(16) == 0) sleepNs(1 + op(1000) * US);
      }
    }));
  }
  // The contexts can be dropped while the streams live.
  for (int x : f) join(x);
  if (choose(K_CFG, 2)) for (SslModel* m : r.models) m->ctx.Clear();
  stage("draining");
  r.drain();
  bool anyCor = false;
  for (Pair* p : r.pairs) if (p->corrupted) {
    anyCor = true;
    Eng& s = p->e[p->corDir]; Eng& o = p->e[1 - p->corDir];
    if (!p->corInData || s.shut || o.shut) continue;
    if (s.s->IsConnected()) s.append(70000);
  }
  if (anyCor) { stage("after the corruption"); r.drain(); }
  stage("checks");
  for (Pair* p : r.pairs) {
    Eng &c = p->e[0], &s = p->e[1];
    if (p->corrupted) {
      if (!p->corInData || s.shut || c.shut) continue;
      Eng& o = p->e[1 - p->corDir]; Eng& t = p->e[p->corDir];
      SIM_CHECK(o.s->HasError(), "C27", "corruption-unnoticed", "stream %d got corrupted input and reports no error, state %d", o.id, o.state());
      SIM_CHECK(t.s->IsClosingOrClosed(), "C27", "corruption-unnoticed", "stream %d has a failed peer and is not closed", t.id);
      probe("corruption_noticed");
      continue;
    }
    bool early = (c.shut && !c.shutClean) || (s.shut && !s.shutClean);
    if (!p->agreed) {
      // A stream which was shut down first has just its own reason.
      if (!early) {
        SIM_CHECK(c.rx == 0 && s.rx == 0, "C27", "data-without-trust", "pair %d exchanged data, although the sides can't agree", p->id);
        if (!c.shut && !s.shut) SIM_CHECK(c.s->HasError() && s.s->HasError(), "C27", "handshake-failure-silent", "pair %d can't agree, but the client state is %d, the server state is %d", p->id, c.state(), s.state());
        probe("refused");
      }
      continue;
    }
    if (!c.shut && !s.shut) {
      for (Eng* e : {&c, &s}) {
        Eng& o = p->peer(e);
        SIM_CHECK(e->s->IsConnected(), "C27", "not-connected", "stream %d is in state %d, error %u %s", e->id, e->state(), e->s->GetError(), e->s->HasError() ? mg::net::SSLErrorToString(e->s->GetError()) : "");
        SIM_CHECK(e->rx == o.tx, "C27", "lost-bytes", "stream %d got %llu of %llu bytes", e->id, (unsigned long long)e->rx, (unsigned long long)o.tx);
      }
      probe("all_delivered");
      // The end.
      Eng& first = p->e[op(2)];
      first.shutdown();
      if (op(3) == 0) p->peer(&first).shutdown();
      r.drain();
      if (p->corrupted) continue;
      for (Eng* e : {&c, &s}) SIM_CHECK(e->s->IsClosed() && !e->s->HasError(), "C27", "not-closed", "stream %d after a shutdown of an idle connection: state %d, error %u %s", e->id, e->state(), e->s->GetError(), e->s->HasError() ? mg::net::SSLErrorToString(e->s->GetError()) : "");
      continue;
    }
    if (early) continue;
    // At least one side was shut down when connected.
    for (Eng* e : {&c, &s}) {
      Eng& o = p->peer(e);
      // The data of the peer could be already on the way.
      if (e->shut && e->s->HasError()) SIM_CHECK(ERR_GET_REASON(e->s->GetError()) == SSL_R_APPLICATION_DATA_AFTER_CLOSE_NOTIFY && ERR_GET_LIB(e->s->GetError()) == ERR_LIB_SSL && (o.tx || o.plainTx), "C27", "foreign-error", "stream %d was shut down, and got error %u %s", e->id, e->s->GetError(), mg::net::SSLErrorToString(e->s->GetError()));
      if (e->shut || !o.shut) continue;
      SIM_CHECK(!e->s->HasError(), "C27", "peer-shutdown-error", "stream %d: a shutdown of the peer gave error %u %s", e->id, e->s->GetError(), mg::net::SSLErrorToString(e->s->GetError()));
      SIM_CHECK(e->s->IsClosed(), "C27", "not-closed", "stream %d is not closed after the shutdown of its peer, state %d", e->id, e->state());
      SIM_CHECK(e->rx >= o.mustTx, "C27", "lost-bytes", "stream %d got %llu of %llu bytes sent before the shutdown", e->id, (unsigned long long)e->rx, (unsigned long long)o.mustTx);
      probe("shutdown_complete");
    }
  }
  stage("deletion");
  for (Pair* p : r.pairs) { for (Eng& e : p->e) delete e.s; delete p; }
  for (SslModel* m : r.models) delete m;
  r.pairs.clear(); r.models.clear(); r.pairs.shrink_to_fit(); r.models.shrink_to_fit();
  per.clear(); per.shrink_to_fit(); f.clear(); f.shrink_to_fit(); oks.clear();
  sslThreadEnd();
  checkLeaks(mark, "C27");
}
}
WORKLOAD(wn_sslstream, "C27", 3) { allowFaults({F_stall_thread, F_preempt_plain}); run(false); }
WORKLOAD(wn_sslstream_bad, "C27", 3) { allowFaults({F_stall_thread, F_preempt_plain}); run(true); }
