// Name resolutions from several threads with any latency of the resolver.
#include "an_net.h"
#include "mg/net/DomainToIP.h"
#include <cstring>
#include <memory>
#include <netdb.h>

using namespace sim;

namespace {
struct Name { std::string name; DnsHost h; std::vector<mg::net::Host> expected; bool bad = false; uint32_t code = 0; };
struct Req {
  int id; Name* n;
  mg::net::DomainToIPRequest* handle = new mg::net::DomainToIPRequest();
  ~Req() { delete handle; }
  uint64_t postCall = 0;            // The resolver was busy with this call when it was posted.
  bool neverTaken = false;          // It was both posted and cancelled during one call of the resolver.
  bool posted = false;        // The handle can be used.
  bool taken = false;         // It is used or was given away.
  bool blocking = false;
  bool canceled = false;
  uint64_t cancelNs = 0;            // The cancel has returned.
  uint64_t postedNs = 0;            // The post has returned.
  bool answered = false;
  uint64_t deadline = UINT64_MAX;   // ms
  uint64_t postMs = 0, ansMs = 0;
  VC vc{};                          // From the poster of the handle to its next user.
};
struct Env { std::vector<Name*> names; std::vector<Req*> reqs; int inCb = 0; bool nested = false; uint64_t totalNs = 0; };
const char* P = "C25";

void check(Env* e, Req* r, const char* domain, const std::vector<mg::net::DomainEndpoint>& eps, mg::box::Error* err) {
  Atomic a;
  uint64_t t = nowMs();
  SIM_CHECK(!r->answered, P, "answer-twice", "request %d is answered again", r->id);
  r->answered = true; r->ansMs = t;
  traceOp("request %d of %s: %s", r->id, r->n->name.c_str(), err ? err->myMessage.c_str() : "ok");
  if (domain) SIM_CHECK(r->n->name == domain, P, "wrong-name", "request %d of %s is answered for %s", r->id, r->n->name.c_str(), domain);
  // The name resolutions are done one by one.
  uint64_t lim = (e->totalNs + 2 * busyTime() + injectedDelay()) / MS + 100;
  SIM_CHECK(t <= r->postMs + lim, P, "slow", "request %d took %llu ms, all the names need %llu ms", r->id, (unsigned long long)(t - r->postMs), (unsigned long long)(e->totalNs / MS));
  if (!err) {
    SIM_CHECK(!r->n->bad, P, "false-success", "request %d of %s succeeded", r->id, r->n->name.c_str());
    SIM_CHECK(eps.size() == r->n->expected.size(), P, "addresses", "request %d of %s got %zu addresses instead of %zu", r->id, r->n->name.c_str(), eps.size(), r->n->expected.size());
    for (size_t i = 0; i < eps.size(); ++i) {
      bool found = false;
      for (size_t k = 0; k < eps.size(); ++k) if (eps[k].myHost == r->n->expected[i]) found = true;
      SIM_CHECK(found, P, "addresses", "request %d of %s lacks the address %zu", r->id, r->n->name.c_str(), i);
    }
    probe("resolved");
  } else {
    SIM_CHECK(eps.empty(), P, "addresses", "request %d has both an error and addresses", r->id);
    if (err->myCode == mg::box::ERR_BOX_TIMEOUT) {
      SIM_CHECK(t >= r->deadline, P, "early-timeout", "request %d timed out at %llu ms, its limit is %llu ms", r->id, (unsigned long long)t, (unsigned long long)r->deadline);
      probe("dns_timeout");
      return;
    }
    if (err->myCode == mg::box::ERR_BOX_CANCEL) {
      SIM_CHECK(r->canceled, P, "false-cancel", "request %d is cancelled by nobody", r->id);
      probe("dns_cancel");
      if (r->neverTaken) probe("dns_cancel_early");
      return;
    }
    if (r->n->bad) SIM_CHECK(r->n->code == 0 || faultEnabled(F_dns_fail) || err->myCode == r->n->code, P, "wrong-error", "request %d of %s: the error is %u instead of %u", r->id, r->n->name.c_str(), (unsigned)err->myCode, r->n->code);
    else SIM_CHECK(faultEnabled(F_dns_fail), P, "false-error", "request %d of %s failed with %s", r->id, r->n->name.c_str(), err->myMessage.c_str());
    probe("dns_error");
  }
  if (r->neverTaken) violation(P, "no-cancel", "request %d was posted and cancelled while the resolver was busy with another one, but is resolved", r->id);
  // It was in the resolver. Then it was not late for long when its turn came.
  uint64_t n = r->deadline == UINT64_MAX || !r->posted ? 0 : dnsCallsSince(std::max((r->deadline + 1) * MS, r->postedNs));
  if (r->cancelNs) { uint64_t k = dnsCallsSince(r->cancelNs); SIM_CHECK(k <= 11, P, "no-cancel", "request %d was cancelled %llu ms ago, but is resolved after %llu other names", r->id, (unsigned long long)(t - r->cancelNs / MS), (unsigned long long)k); }
  SIM_CHECK(n <= 11, P, "no-timeout", "request %d has its time limit %llu ms passed, but was resolved %llu ms later, after %llu other names", r->id, (unsigned long long)r->deadline, (unsigned long long)(t - r->deadline), (unsigned long long)n);
}
void act(Env* e, bool inCb);
void post(Env* e, bool inCb) {
  Req* r = new Req();
  {
    Atomic a;
    if (e->reqs.size() >= 60) { delete r; return; }
    r->id = (int)e->reqs.size(); r->n = e->names[op((uint32_t)e->names.size())];
    e->reqs.push_back(r);
    e->totalNs += r->n->h.delay;
  }
  mg::box::TimeLimit lim = mg::box::theTimePointInf;
  uint64_t now = nowMs(); r->postMs = now;
  switch (op(5)) {
  case 0: break;
  case 1: lim = mg::box::theTimeDurationInf; break;
  case 2: { uint64_t d = inSize(3000); lim = mg::box::TimeDuration(d); r->deadline = now + d; break; }
  case 3: { uint64_t d = inSize(3000); lim = mg::box::TimePoint(now + d); r->deadline = now + d; break; }
  case 4: lim = mg::box::TimeDuration(0); r->deadline = now; break;
  }
  if (!inCb && op(4) == 0) {
    r->blocking = true;
    std::vector<mg::net::DomainEndpoint> eps; mg::box::Error::Ptr err;
    bool ok = mg::net::DomainToIPBlocking(r->n->name, lim, eps, err);
    SIM_CHECK(ok == !err.IsSet(), P, "blocking", "a blocking request returned %d", ok);
    check(e, r, nullptr, eps, err.GetPointer());
    probe("dns_blocking");
    return;
  }
  // The one who asked can forget everything in the callback.
  bool own = op(4) == 0;
  if (own) r->taken = true;
  uint64_t t0 = ::sim::now(), d0 = injectedDelay(), b0 = busyTime();
  { Atomic a; r->postCall = dnsRunning(); }
  std::shared_ptr<int> token = std::make_shared<int>(r->id);
  mg::net::DomainToIPAsync(*r->handle, r->n->name.c_str(), lim, [e, r, own, token](const char* domain, const std::vector<mg::net::DomainEndpoint>& eps, mg::box::Error* err) {
    { Atomic a; SIM_CHECK(++e->inCb == 1, P, "overlap", "callbacks overlap"); SIM_CHECK(*token == r->id, P, "callback", "a callback is damaged"); }
    if (own) { delete r->handle; r->handle = nullptr; probe("dns_forget_in_callback"); }
    check(e, r, domain, eps, err);
    if (e->nested && op(3) == 0) { probe("dns_nested"); act(e, true); }
    Atomic a; --e->inCb;
  });
  {
    Atomic a;
    (void)d0; (void)b0;
    SIM_CHECK(::sim::now() - t0 <= 2 * busyTime() + injectedDelay() + 50 * MS, P, "blocked", "an asynchronous request waited for %llu ms", (unsigned long long)((::sim::now() - t0) / MS));
    r->posted = true; r->postedNs = ::sim::now();
    hbRelease(&r->vc);
  }
}
void act(Env* e, bool inCb) {
  switch (op(5)) {
  case 0: case 1: post(e, inCb); return;
  case 2: case 3: {
    // Cancel or forget something.
    Req* r = nullptr;
    {
      Atomic a;
      for (int i = 0; i < 4 && !r && !e->reqs.empty(); ++i) {
        Req* x = e->reqs[op((uint32_t)e->reqs.size())];
        if (x->posted && !x->taken) { r = x; r->taken = true; hbAcquire(&r->vc); }
      }
      if (!r) return;
    }
    if (op(3)) {
      mg::net::DomainToIPRequest moved;
      bool mv = op(3) == 0;
      if (mv) moved = std::move(*r->handle);
      { Atomic a; r->canceled = true; if (r->answered) probe("cancel_late"); }
      uint64_t t0 = now();
      mg::net::DomainToIPCancel(mv ? moved : *r->handle);
      Atomic a;
      r->cancelNs = now();
      r->neverTaken = r->postCall && dnsRunning() == r->postCall;
      SIM_CHECK(now() - t0 <= 2 * busyTime() + injectedDelay() + 50 * MS, P, "blocked", "a cancel waited for %llu ms", (unsigned long long)((now() - t0) / MS));
    } else {
      mg::net::DomainToIPRequest moved(std::move(*r->handle));
      if (op(2)) moved = mg::net::DomainToIPRequest();
      probe("dns_forget");
    }
    return;
  }
  case 4: if (!inCb) sleepNs((uint64_t)(1 + op(50)) << op(22) << 3); return;
  }
}
void run() {
  warmResolver();
  uint64_t mark = allocMark();
  allowFaults({F_dns_delay, F_dns_fail});
  Env* e = new Env();
  e->nested = choose(K_CFG, 2);
  int n = 1 + (int)choose(K_CFG, 5);
  bool slow = choose(K_CFG, 2);
  for (int i = 0; i < n; ++i) {
    Name* x = new Name();
    x->name = "n" + std::to_string(i) + ".test";
    DnsHost& h = x->h;
    h.name = x->name; h.rc = 0; h.sysErr = 0; h.extraFamilies = op(2);
    h.delay = op(3) ? (uint64_t)op(slow ? 2000 : 20) * MS : 0;
    uint32_t k = op(8);
    if (k == 0) {
      static const int rcs[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY};
      h.rc = rcs[op(5)]; h.sysErr = op(2) ? EMFILE : ECONNREFUSED; x->bad = true;
      x->code = h.rc == EAI_SYSTEM ? (uint32_t)mg::box::ErrorCodeFromErrno((uint32_t)h.sysErr) : (uint32_t)mg::box::ERR_NET_ADDR_NOT_AVAIL;
    } else if (k == 1) { x->bad = true; x->code = mg::box::ERR_NET_ADDR_NOT_AVAIL; h.extraFamilies = true; }
    else {
      int m = 1 + (int)op(5);
      for (int j = 0; j < m; ++j) {
        Addr a = op(3) == 0 ? addr6((uint16_t)(1 + op(4) + i * 16), 0) : addr4(10, 1, (uint8_t)i, (uint8_t)op(4), 0);
        h.addrs.push_back(a);
        mg::net::Host host((const mg::net::Sockaddr*)&a.s);
        bool dup = false;
        for (auto& q : x->expected) if (q == host) dup = true;
        if (!dup) x->expected.push_back(host);
      }
    }
    if (op(12) == 0) { x->bad = true; x->code = mg::box::ERR_NET_ADDR_NOT_AVAIL; h.delay = 0; }    // Unknown.
    else dnsAdd(h);
    e->names.push_back(x);
  }
  if (op(4) == 0) {
    Name* x = new Name(); x->name = "10.1.2.3"; x->expected.push_back(mg::net::Host("10.1.2.3")); e->names.push_back(x);
  }
  std::vector<int> fibers;
  int nf = 1 + (int)choose(K_CFG, 4);
  for (int i = 0; i < nf; ++i)
    fibers.push_back(spawn("poster", [e] { int k = 1 + (int)op(12); while (k-- > 0) act(e, false); }));
  for (int f : fibers) join(f);
  stage("every request must be answered");
  if (!eventually([&] { for (Req* r : e->reqs) if (!r->answered) return false; return true; }))
    for (Req* r : e->reqs) if (!r->answered) violation(P, "no-answer", "request %d of %s is never answered, cancelled %d", r->id, r->n->name.c_str(), r->canceled);
  // No second answer.
  flushResolver();
  for (Req* r : e->reqs) delete r;
  for (Name* x : e->names) delete x;
  delete e;
  std::vector<int>().swap(fibers);
  for (int i = 0; i < 100 && dnsLiveLists(); ++i) sleepNs((uint64_t)i * MS);
  SIM_CHECK(dnsLiveLists() == 0, P, "dns-leak", "an address list isn't freed");
  dnsClear();
  checkLeaks(mark, P);
}
}
WORKLOAD(wn_dns, "C25 C29", 3) { run(); }
