// Workloads over the concurrency primitives of mg::box.
#include "rt.h"
#include "ac_box.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/InterruptibleMutex.h"
#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/Mutex.h"
#include "mg/box/Signal.h"
#include "mg/box/ThreadFunc.h"
#include "mg/box/Time.h"
#include <memory>
#include <set>

using namespace sim;
using namespace ad;
typedef unsigned long long ull;

static void noLeaksBox(uint64_t mark, const char* props) {
  size_t n = 0; void* pc = nullptr;
  uint64_t left = liveSince(mark, &n, &pc);
  SIM_CHECK(left == 0, props, "leak", "%llu blocks leaked, the first one is of %zu bytes from %p", (ull)left, n, pc);
}
static void pauseABit(uint32_t odds = 4) { if (op(odds) == odds - 1) sleepNs(inSize(3000) * US); }

// ------------------------------------------------------- multi-consumer queue ----
namespace {
struct McItem { int id; bool popped = false; uint64_t missAt = 0; uint64_t payload = 0; };
struct McWorld {
  mg::box::MultiConsumerQueue<McItem>* q;
  std::vector<McItem*> items;
  int invoked = 0;              // Items whose visibility is being established or is established.
  int visible = 0;              // Visible for sure.
  int popped = 0;
  int maxDone = -1;             // The biggest id of the completed pops.
  int popsInFlight = 0;
  bool producing = true;
};
typedef mg::box::MultiConsumerQueueConsumer<McItem> McConsumer;
bool mcPop(McWorld& w, McConsumer& c, int* last) {
  uint64_t inv = stepNo();
  int visible = w.visible, maxDone = w.maxDone;
  ++w.popsInFlight;
  McItem* i = c.Pop();
  --w.popsInFlight;
  if (i == nullptr) {
    probe("mcq_empty_pop");
    for (int k = 0; k < visible; ++k) {
      McItem* m = w.items[k];
      if (m->popped) continue;
      SIM_CHECK(w.popsInFlight > 0, "C09", "missed", "a pop returns nothing, while item %d was pushed before it and isn't taken", k);
      if (m->missAt == 0) m->missAt = stepNo();
    }
    return false;
  }
  SIM_CHECK(i->id >= 0 && i->id < w.invoked, "C09", "invisible", "item %d is popped before it is pushed or flushed", i->id);
  SIM_CHECK(!i->popped, "C09", "twice", "item %d is popped twice", i->id);
  i->popped = true; ++w.popped;
  SIM_CHECK(i->id > *last, "C09", "order", "a consumer gets item %d after item %d", i->id, *last);
  *last = i->id;
  SIM_CHECK(i->id > maxDone, "C09", "fifo", "item %d is popped after item %d", i->id, maxDone);
  SIM_CHECK(i->missAt == 0 || inv <= i->missAt, "C09", "missed", "item %d was missed by a pop which returned nothing", i->id);
  if (i->id > w.maxDone) w.maxDone = i->id;
  payloadRead(&i->payload, 8, "data of an item");
  SIM_CHECK(i->payload == (uint64_t)i->id * 7 + 3, "C09", "payload", "the data of item %d is wrong", i->id);
  uint32_t cnt = w.q->Count();
  SIM_CHECK(cnt <= w.items.size(), "C09", "count", "the count is %u of %zu", cnt, w.items.size());
  return true;
}
}
WORKLOAD(box_mcq, "C09 C29", 5) {
  static const uint32_t sizes[] = {2, 1, 3, 4, 5, 8, 16};
  uint64_t mark = allocMark();
  {
    McWorld w;
    uint32_t size = sizes[in(7)];
    w.q = new mg::box::MultiConsumerQueue<McItem>(size);
    int total = 1 + (int)inSize(40);
    for (int i = 0; i < total; ++i) { McItem* m = new McItem(); m->id = i; w.items.push_back(m); }
    if (in(4) == 3) w.q->Reserve(in(20));
    std::vector<int> fs;
    fs.push_back(spawn("producer", [&] {
      int next = 0, pending = 0;
      uint32_t pendOdds = in(3);
      while (next < total) {
        McItem* m = w.items[next];
        m->payload = (uint64_t)m->id * 7 + 3;
        payloadWrite(&m->payload, 8, "data of an item");
        bool doneBefore = w.popped == w.visible && w.popsInFlight == 0;
        int old = w.visible;
        if (pendOdds && op(pendOdds + 1)) {
          // Could flush the ones before.
          w.invoked = next;
          bool r = w.q->PushPending(m);
          ++next;
          if (r) {
            int taken = 0;
            for (int k = 0; k < old; ++k) taken += w.items[k]->popped;
            SIM_CHECK(taken + w.popsInFlight >= old, "C09", "became", "the queue 'became not empty' having items");
          }
          ++pending;
          // The pushes before the current sub-queue are surely visible. Which ones is internal.
        } else if (pending && op(3) == 2) {
          w.invoked = next;
          bool r = w.q->FlushPending();
          w.visible = next; pending = 0;
          int taken = 0;
          for (int k = 0; k < old; ++k) taken += w.items[k]->popped;
          if (r) SIM_CHECK(taken + w.popsInFlight >= old, "C09", "became", "the queue 'became not empty' having items");
          (void)doneBefore;
        } else {
          w.invoked = next + 1;
          bool r = w.q->Push(m);
          ++next; w.visible = next;
          int taken = 0;
          for (int k = 0; k < old; ++k) taken += w.items[k]->popped;
          if (r) SIM_CHECK(taken + w.popsInFlight >= old, "C09", "became", "the queue 'became not empty' having items");
          if (pending == 0 && doneBefore) SIM_CHECK(r, "C09", "became", "a push into an empty queue isn't reported");
          pending = 0;
        }
        if (op(12) == 11) w.q->Reserve(in(30));
        pauseABit(6);
      }
      if (pending) { w.invoked = total; w.q->FlushPending(); }
      SIM_CHECK(!w.q->FlushPending(), "C09", "flush", "nothing to flush, but it reports");
      w.invoked = w.visible = total;
      w.producing = false;
    }));
    uint32_t nc = 1 + inSize(4);
    for (uint32_t k = 0; k < nc; ++k) fs.push_back(spawn("consumer", [&] {
      int last = -1;
      McConsumer c;
      bool attached = false;
      uint32_t n = inSize(60);
      uint32_t style = in(3);
      while (n-- > 0) {
        if (!attached) { c.Attach(w.q); attached = true; }
        bool ok = mcPop(w, c, &last);
        if (style == 1 && op(5) == 4) { c.Detach(); attached = false; }
        if (style == 2) pauseABit(3);
        if (!ok && op(2)) sleepNs(inSize(500) * US);
      }
      if (attached && op(2)) c.Detach();
    }));
    // Counters read by anybody.
    if (in(3) == 2) fs.push_back(spawn("watcher", [&] {
      for (uint32_t i = in(20); i > 0; --i) {
        uint32_t cnt = w.q->Count();
        SIM_CHECK(cnt <= (uint32_t)total, "C09", "count", "the count is %u of %d", cnt, total);
        SIM_CHECK(w.q->ConsumerCount() <= nc, "C09", "consumers", "too many consumers");
        SIM_CHECK(w.q->SubQueueCount() >= 1, "C09", "subqueues", "no sub-queues");
        yield();
      }
    }));
    for (int f : fs) join(f);
    // The rest must come out.
    SIM_CHECK(w.q->Count() == (uint32_t)(total - w.popped), "C09", "count", "%u items are counted, %d are left", w.q->Count(), total - w.popped);
    SIM_CHECK(w.q->ConsumerCount() == 0, "C09", "consumers", "consumers are left");
    {
      McConsumer c(w.q);
      int last = -1;
      while (w.popped < total) {
        int before = w.popped;
        SIM_CHECK(mcPop(w, c, &last), "C09", "lost", "%d items of %d are lost", total - w.popped, total);
        SIM_CHECK(w.popped == before + 1, "C09", "lost", "not one item");
      }
      SIM_CHECK(!mcPop(w, c, &last), "C09", "extra", "an extra item");
      SIM_CHECK(w.q->Count() == 0, "C09", "count", "the count of the empty queue is %u", w.q->Count());
      // The memory must be recycled.
      uint32_t sub = w.q->SubQueueCount(), lim = sub < 3 ? 3 : sub;
      if (in(2)) {
        McItem tmp; tmp.id = 0;
        for (uint32_t i = 0; i < size * (sub + 3) && i < 300; ++i) {
          SIM_CHECK(w.q->Push(&tmp), "C09", "became", "a push into an empty queue isn't reported");
          SIM_CHECK(c.Pop() == &tmp, "C09", "lost", "an item is lost");
        }
        SIM_CHECK(w.q->SubQueueCount() <= lim, "C09", "growth", "the segments aren't reused: %u -> %u", sub, w.q->SubQueueCount());
      }
    }
    delete w.q;
    for (McItem* m : w.items) { payloadForget(&m->payload, 8); delete m; }
  }
  noLeaksBox(mark, "C09");
}

// ------------------------------------------------------- multi-producer queue ----
namespace {
struct MpWorld {
  Mpq q;
  std::vector<MpqItem*> all;
  uint64_t trues = 0, batches = 0;
  bool sleeping = false;
  mg::box::Signal sig;
  int popped = 0;
  std::vector<int> lastOf;
  bool fast = false;
};
void mpResult(MpqItem* i, bool r) {
  i->result = r; i->returned = true; i->ret = stepNo();
  if (i->expect >= 0) SIM_CHECK(i->expect == (int)r, "C10", "first", "a push reports %s, but it was %s", r ? "first" : "not first", r ? "not" : "first");
}
// The items are in the order of the pushes.
void mpBatch(MpWorld& w, std::vector<MpqItem*>& v) {
  ++w.batches;
  uint64_t maxInv = 0;
  for (size_t k = 0; k < v.size(); ++k) {
    MpqItem* i = v[k];
    SIM_CHECK(i->invoked, "C10", "early", "an item is popped before its push");
    SIM_CHECK(!i->popped, "C10", "twice", "an item is popped twice");
    i->popped = true; ++w.popped;
    payloadRead(&i->payload, 8, "data of an item");
    SIM_CHECK(i->payload == (uint64_t)i->id + 11, "C10", "payload", "wrong data of an item");
    SIM_CHECK(i->id > w.lastOf[i->producer], "C10", "order", "producer %d: item %d comes after item %d", i->producer, i->id, w.lastOf[i->producer]);
    w.lastOf[i->producer] = i->id;
    // Whoever returned before another push began must come first.
    SIM_CHECK(!i->returned || i->ret >= maxInv, "C10", "order", "an item comes after the items pushed later");
    if (i->inv > maxInv) maxInv = i->inv;
  }
}
}
WORKLOAD(box_mpq, "C10 C29", 5) {
  uint64_t mark = allocMark();
  {
    MpWorld w;
    int np = 1 + (int)inSize(4);
    w.lastOf.assign(np, -1);
    std::vector<int> fs;
    int total = 0, doneProducers = 0;
    bool useSignal = in(2);
    std::vector<std::vector<MpqItem*>> plan(np);
    for (int p = 0; p < np; ++p) {
      int n = 1 + (int)inSize(16);
      for (int i = 0; i < n; ++i) { MpqItem* m = new MpqItem(); m->id = i; m->producer = p; plan[p].push_back(m); w.all.push_back(m); }
      total += n;
    }
    for (int p = 0; p < np; ++p) fs.push_back(spawn("producer", [&, p] {
      auto& v = plan[p];
      size_t k = 0;
      while (k < v.size()) {
        size_t cnt = 1;
        int how = (int)op(5);
        if (how >= 1 && how != 4) cnt = 1 + inSize((uint32_t)(v.size() - k));
        uint64_t inv = stepNo();
        for (size_t j = k; j < k + cnt; ++j) {
          v[j]->payload = (uint64_t)v[j]->id + 11;
          payloadWrite(&v[j]->payload, 8, "data of an item");
          v[j]->inv = inv; v[j]->invoked = true;
        }
        bool r;
        if (how == 0 || how == 4) r = mpqPush(&w.q, v[k]);
        else if (how == 1) {
          for (size_t j = k; j < k + cnt; ++j) v[j]->myNext = j + 1 < k + cnt ? v[j + 1] : nullptr;
          r = mpqPushMany(&w.q, v[k]);
        } else {
          for (size_t j = k; j < k + cnt; ++j) v[j]->myNext = j > k ? v[j - 1] : nullptr;
          if (how == 2) r = mpqPushManyRev(&w.q, v[k + cnt - 1]);
          else r = mpqPushManyRev2(&w.q, v[k + cnt - 1], v[k]);
        }
        for (size_t j = k + 1; j < k + cnt; ++j) { v[j]->returned = true; v[j]->ret = stepNo(); }
        if (r) ++w.trues;
        mpResult(v[k], r);
        k += cnt;
        if (r && useSignal) w.sig.Send();
        if (op(8) == 7) { mpqPushMany(&w.q, nullptr); mpqPushManyRev(&w.q, nullptr); mpqPushManyRev2(&w.q, nullptr, nullptr); }
        pauseABit(6);
      }
      ++doneProducers;
    }));
    fs.push_back(spawn("consumer", [&] {
      while (w.popped < total) {
        std::vector<MpqItem*> mustBe;
        for (MpqItem* i : w.all) if (i->returned && !i->popped) mustBe.push_back(i);
        int how = (int)op(3);
        if (op(6) == 5) {
          bool e = mpqIsEmpty(&w.q);
          SIM_CHECK(!e || mustBe.empty(), "C10", "missed", "the queue says it is empty while an item is there");
        }
        std::vector<MpqItem*> v;
        MpqItem* tail = nullptr;
        MpqItem* h = how == 0 ? mpqPopAll(&w.q) : how == 1 ? mpqPopAllTail(&w.q, &tail) : mpqPopAllRev(&w.q);
        for (MpqItem* i = h; i; i = i->myNext) {
          v.push_back(i);
          SIM_CHECK(v.size() <= w.all.size(), "C10", "cycle", "the popped list has a cycle");
        }
        if (how == 1) SIM_CHECK(v.empty() ? tail == nullptr : tail == v.back(), "C10", "tail", "wrong tail of the popped list");
        if (how == 2) std::reverse(v.begin(), v.end());
        if (!v.empty()) {
          MpqItem* f = v[0];
          mpBatch(w, v);
          for (MpqItem* i : v) {
            int e = i == f;
            // Only the first item of a linked push carries the result.
            if (i->returned && i->ret && (i == f || i->result)) SIM_CHECK((int)i->result == e, "C10", "first", "a push reports %s, but it was %s", i->result ? "first" : "not first", e ? "first" : "not");
            i->expect = e;
          }
        }
        for (MpqItem* i : mustBe) SIM_CHECK(i->popped, "C10", "missed", "an item pushed before the pop isn't popped");
        if (v.empty()) {
          probe("mpq_empty_pop");
          if (useSignal) w.sig.ReceiveBlocking(); else sleepNs(100 * US);
        }
        pauseABit(8);
      }
    }));
    stage("all items to be popped");
    bool ok = eventually([&] { return w.popped == total; });
    SIM_CHECK(ok, "C10", "lost", "%d items of %d are lost, or the consumer wasn't told about them", total - w.popped, total);
    for (int f : fs) join(f);
    SIM_CHECK(mpqPopAll(&w.q) == nullptr && mpqIsEmpty(&w.q), "C10", "extra", "extra items");
    SIM_CHECK(w.trues == w.batches, "C10", "first", "the queue became not empty %llu times, it was reported %llu times", (ull)w.batches, (ull)w.trues);
    for (MpqItem* i : w.all) { payloadForget(&i->payload, 8); delete i; }
  }
  noLeaksBox(mark, "C10");
}

// --------------------------------------------------------------------- signal ----
WORKLOAD(box_signal, "C11 C29", 5) {
  uint64_t mark = allocMark();
  {
    mg::box::Signal s;
    uint32_t ns = 1 + in(3), nr = 1 + in(3);
    uint64_t sendsInv = 0, received = 0;
    struct Send { uint64_t inv, ret; };
    std::vector<Send> sends;
    std::vector<uint64_t> recvRets;
    sends.reserve(200);
    std::vector<std::unique_ptr<uint64_t>> data;
    // A sender's data is read by receivers which came after its send.
    std::vector<int> sentBy(ns, 0), seenBy(ns, 0);
    for (uint32_t k = 0; k < ns; ++k) data.emplace_back(new uint64_t(0));
    bool quit = false;
    std::vector<int> fs, rs;
    for (uint32_t k = 0; k < ns; ++k) fs.push_back(spawn("sender", [&, k] {
      for (uint32_t n = 1 + inSize(12); n > 0; --n) {
        size_t idx = sends.size();
        sends.push_back({stepNo(), 0});
        ++sendsInv;
        s.Send();
        sends[idx].ret = stepNo();
        pauseABit(3);
      }
    }));
    for (uint32_t k = 0; k < nr; ++k) rs.push_back(spawn("receiver", [&] {
      while (!quit) {
        int how = (int)op(3);
        bool ok;
        uint64_t t0 = now(), j0 = nowMs();
        uint64_t d = 0;
        // Is it set for sure?
        uint64_t recvBefore = received;
        bool set = false;
        uint64_t lastRecv = recvRets.empty() ? 0 : recvRets.back();
        for (auto& x : sends) if (x.ret && x.inv > lastRecv) set = true;
        // A send in progress isn't receivable yet, although the ones merged into it are over.
        for (auto& x : sends) if (!x.ret) set = false;
        if (how == 0) { s.ReceiveBlocking(); ok = true; }
        else if (how == 1) {
          ok = s.Receive();
          if (!ok && set && nr == 1) violation("C11", "lost", "a signal was sent and not received since, but isn't set");
        } else {
          d = inSize(50);
          bool point = op(2);
          ok = s.ReceiveTimed(point ? mg::box::TimeLimit(mg::box::TimePoint(j0 + d)) : mg::box::TimeLimit(mg::box::TimeDuration(d)));
          if (!ok && set && nr == 1) violation("C11", "lost", "a signal was sent and not received since, but isn't set");
          if (!ok && nr == 1 && !faultEnabled(F_spurious_wakeup))
            SIM_CHECK(point ? nowMs() >= j0 + d : now() - t0 >= d * MS, "C11", "early", "a timed receive of %llu ms fails after %llu us", (ull)d, (ull)((now() - t0) / US));
          SIM_CHECK(now() - t0 <= (d + 5) * MS + 2 * busyTime() + injectedDelay(), "C11", "late", "a timed receive of %llu ms takes %llu us", (ull)d, (ull)((now() - t0) / US));
          (void)recvBefore;
        }
        if (ok) {
          ++received;
          if (quit) break;
          recvRets.push_back(stepNo());
          SIM_CHECK(received <= sendsInv, "C11", "extra", "%llu receives of %llu sends", (ull)received, (ull)sendsInv);
        } else if (how == 1) sleepNs(inSize(300) * US);
      }
    }));
    for (int f : fs) join(f);
    // Each send is received.
    bool ok = eventually([&] {
      uint64_t last = recvRets.empty() ? 0 : recvRets.back();
      for (auto& x : sends) if (x.inv > last) return false;
      return true;
    });
    SIM_CHECK(ok, "C11", "lost", "a sent signal is never received");
    quit = true;
    stage("stopping the receivers");
    std::vector<bool> dummy;
    int alive = (int)nr;
    std::vector<int> js;
    bool over = false;
    int sf = spawn("stopper", [&] { while (!over) { ++sendsInv; s.Send(); sleepNs(1 * MS); } });
    for (int f : rs) { join(f); --alive; }
    over = true; join(sf);
    sends.clear(); 
  }
  noLeaksBox(mark, "C11");
}
// Visibility and a destruction right after a receive.
WORKLOAD(box_sigdel, "C11 C29", 4) {
  uint64_t mark = allocMark();
  {
    uint32_t rounds = 1 + inSize(10);
    for (uint32_t r = 0; r < rounds; ++r) {
      struct Box { mg::box::Signal s; uint64_t data[4] = {}; };
      Box* b = new Box();
      uint64_t* extra = new uint64_t(0);
      int how = (int)op(3);
      int f = spawn("sender", [b, extra] {
        pauseABit(3);
        payloadWrite(b->data, 32, "data before the send");
        payloadWrite(extra, 8, "data before the send");
        b->s.Send();
      });
      int r2 = spawn("receiver", [b, how] {
        pauseABit(3);
        if (how == 0) b->s.ReceiveBlocking();
        else if (how == 1) { for (int i = 0; !b->s.Receive(); ++i) sleepNs(i < 20 ? 30 * US : 5 * MS); }
        else while (!b->s.ReceiveTimed(mg::box::TimeDuration(inSize(30)))) {}
        payloadRead(b->data, 32, "data before the send");
        payloadForget(b->data, 32);
        delete b;
        probe("deleted_after_receive");
      });
      stage("the receiver to wake up");
      join(r2);
      join(f);
      payloadForget(extra, 8); delete extra;
    }
  }
  noLeaksBox(mark, "C11");
}
// Collapsed sends: whoever sends, its data is there once the signal is received.
WORKLOAD(box_sigdata, "C11 C29", 4) {
  uint64_t mark = allocMark();
  {
    mg::box::Signal s;
    uint32_t ns = 1 + in(3);
    struct Src { uint64_t data = 0; bool invoked = false, sent = false, seen = false; };
    bool anyTaken = false;   // A receive might have consumed the sends not taken as seen yet.
    std::vector<std::unique_ptr<Src>> src;
    for (uint32_t k = 0; k < ns; ++k) src.emplace_back(new Src());
    std::vector<int> fs;
    for (uint32_t k = 0; k < ns; ++k) fs.push_back(spawn("sender", [&, k] {
      Src* x = src[k].get();
      pauseABit(2);
      payloadWrite(&x->data, 8, "data before the send");
      x->invoked = true;
      s.Send();
      x->sent = true;
    }));
    bool forever = in(4) == 3, quit = false;
    uint32_t left = ns;
    int rf = spawn("receiver", [&] {
      while (!quit) {
        std::vector<Src*> must;
        bool inProgress = false;
        for (auto& x : src) {
          if (x->sent && !x->seen) must.push_back(x.get());
          if (x->invoked && !x->sent) inProgress = true;
        }
        if (op(2)) s.ReceiveBlocking();
        else {
          uint64_t t0 = now();
          bool ok = s.ReceiveTimed(forever ? mg::box::TimeLimit(op(2) ? mg::box::TimeLimit(mg::box::theTimePointInf) : mg::box::TimeLimit(mg::box::theTimeDurationInf))
            : mg::box::TimeLimit(mg::box::TimeDuration(5)));
          if (!ok) {
            if (forever && !faultEnabled(F_spurious_wakeup)) violation("C11 C13", "early", "an endless timed receive fails after %llu us", (ull)((now() - t0) / US));
            SIM_CHECK(must.empty() || inProgress || anyTaken, "C11", "lost", "a sent signal isn't received");
            continue;
          }
        }
        // All the sends completed before this receive began must be visible.
        anyTaken = false;
        for (auto& x : src) if (x->invoked && !x->seen) anyTaken = true;
        for (Src* x : must) { payloadRead(&x->data, 8, "data before the send"); x->seen = true; --left; }
      }
    });
    stage("the receiver");
    int ok = eventually([&] { for (auto& x : src) if (!x->sent) return false; return true; });
    SIM_CHECK(ok, "C11", "hang", "a send hangs");
    for (int f : fs) join(f);
    // Let the receiver leave.
    bool over = false;
    int sf = spawn("stopper", [&] { while (!over) { s.Send(); sleepNs(1 * MS); } });
    SIM_CHECK(eventually([&] { return left == 0; }), "C11", "lost", "a signal isn't received");
    quit = true;
    join(rf); over = true; join(sf);
    for (auto& x : src) payloadForget(&x->data, 8);
  }
  noLeaksBox(mark, "C11");
}

// -------------------------------------------------------- interruptible mutex ----
WORKLOAD(box_imutex, "C12 C29", 5) {
  uint64_t mark = allocMark();
  {
    struct W {
      mg::box::InterruptibleMutex m;
      mg::box::Signal sig;
      int owners = 0;            // Inside.
      int candidates = 0;        // Between an acquiring call's start and a releasing call's end.
      uint64_t data = 0;
      uint64_t got = 0;
      uint64_t interrupts = 0;
      int owner = -1;            // Surely the owner: has returned from the lock, is not unlocking yet.
      uint64_t ended[MAXF] = {}; // Finished ownerships of each thread.
    } w;
    uint32_t nw = 1 + in(3), no = 1 + in(3);
    std::vector<int> ws, os;
    bool quit = false;
    uint64_t workerHeld = 0;
    auto enterLock = [&w] {
      SIM_CHECK(w.owners == 0, "C12", "exclusion", "two threads own the mutex");
      ++w.owners; w.owner = self();
      payloadRead(&w.data, 8, "data of the previous owner");
      payloadWrite(&w.data, 8, "data of the previous owner");
    };
    auto leaveLock = [&w] {
      payloadWrite(&w.data, 8, "data of the previous owner");
      --w.owners; w.owner = -1;
      w.m.Unlock();
      --w.candidates; ++w.ended[self()];
    };
    for (uint32_t k = 0; k < nw; ++k) ws.push_back(spawn("worker", [&] {
      while (!quit) {
        ++w.candidates;
        if (!w.m.TryLock()) { --w.candidates; sleepNs(inSize(400) * US); continue; }
        enterLock();
        ++workerHeld;
        // The sleep while holding it.
        if (op(3)) w.sig.ReceiveBlocking(); else pauseABit(2);
        SIM_CHECK(w.owners == 1, "C12", "exclusion", "two threads own the mutex");
        if (op(4) == 3) sleepNs(inSize(200) * US);
        leaveLock();
        pauseABit(3);
      }
    }));
    uint32_t left = no;
    for (uint32_t k = 0; k < no; ++k) os.push_back(spawn("other", [&] {
      for (uint32_t n = 1 + inSize(8); n > 0; --n) {
        pauseABit(2);
        ++w.candidates;
        int called = 0;
        bool inLock = true;
        w.m.Lock([&] {
          SIM_CHECK(inLock, "C12", "late-interrupt", "the wakeup is called outside of the lock");
          SIM_CHECK(++called == 1, "C12", "interrupts", "one lock interrupts twice");
          // Besides the caller somebody must be the owner.
          SIM_CHECK(w.candidates >= 2, "C12", "no-owner", "an interrupt while nobody owns the mutex");
          ++w.interrupts;
          probe("imutex_interrupt");
          int o = w.owner;
          uint64_t e = o >= 0 ? w.ended[o] : 0;
          bool early = op(2);
          if (early) w.sig.Send();
          for (uint32_t y = op(4); y > 0; --y) yield();
          if (op(8) == 7) sleepNs(inSize(300) * US);
          // The one being interrupted can't be gone yet.
          if (o >= 0) SIM_CHECK(w.ended[o] == e, "C12", "stale-interrupt", "an interrupt is given to a thread which doesn't own the mutex any more");
          if (!early) w.sig.Send();
        });
        inLock = false;
        enterLock();
        ++w.got;
        yield();
        if (op(4) == 3) sleepNs(inSize(200) * US);
        leaveLock();
      }
      --left;
    }));
    stage("the lockers");
    bool ok = eventually([&] { return left == 0; });
    SIM_CHECK(ok, "C12", "stuck", "a locker never gets the mutex");
    for (int f : os) join(f);
    quit = true;
    bool over = false;
    int sf = spawn("stopper", [&] { while (!over) { w.sig.Send(); sleepNs(1 * MS); } });
    stage("the workers");
    for (int f : ws) join(f);
    over = true; join(sf);
    SIM_CHECK(w.m.TryLock(), "C12", "left-locked", "the mutex is left locked");
    w.m.Unlock();
    payloadForget(&w.data, 8);
  }
  noLeaksBox(mark, "C12");
}

// ---------------------------------------------------------------------- mutex ----
WORKLOAD(box_mutex, "C13", 4) {
  uint64_t mark = allocMark();
  {
    mg::box::Mutex m;
    uint64_t* data = new uint64_t(0);
    int owner = -1, depth = 0;
    uint32_t nt = 2 + in(3);
    std::vector<int> fs;
    uint32_t left = nt;
    for (uint32_t t = 0; t < nt; ++t) fs.push_back(spawn("t", [&, t] {
      for (uint32_t n = 1 + inSize(12); n > 0; --n) {
        SIM_CHECK(!m.IsOwnedByThisThread(), "C13", "owner", "an unlocked mutex is owned by this thread");
        bool got = true;
        bool guard = op(5) == 4;
        if (guard) {
          mg::box::MutexLock l(m);
          SIM_CHECK(owner == -1, "C13", "exclusion", "two threads own the mutex");
          owner = (int)t;
          payloadRead(data, 8, "data under the mutex"); payloadWrite(data, 8, "data under the mutex");
          yield();
          SIM_CHECK(owner == (int)t && m.IsOwnedByThisThread(), "C13", "exclusion", "two threads own the mutex");
          owner = -1;
          if (op(2)) { l.Unlock(); SIM_CHECK(!m.IsOwnedByThisThread(), "C13", "owner", "the lock guard doesn't unlock"); if (op(2)) l.Unlock(); }
          continue;
        }
        if (op(3) == 2) {
          bool freeNow = owner == -1 && depth == 0;
          (void)freeNow;
          got = m.TryLock();
        } else m.Lock();
        if (!got) { pauseABit(2); continue; }
        SIM_CHECK(owner == -1, "C13", "exclusion", "two threads own the mutex");
        owner = (int)t; depth = 1;
        uint32_t ops = inSize(8);
        while (ops-- > 0) {
          int k = (int)op(4);
          payloadRead(data, 8, "data under the mutex"); payloadWrite(data, 8, "data under the mutex");
          if (k == 0) { m.Lock(); ++depth; }
          else if (k == 1) { SIM_CHECK(m.TryLock(), "C13", "recursion", "the owner can't lock the mutex again"); ++depth; }
          else if (k == 2 && depth > 1) { --depth; m.Unlock(); }
          else yield();
          SIM_CHECK(m.IsOwnedByThisThread(), "C13", "owner", "the owner doesn't own the mutex at depth %d", depth);
          SIM_CHECK(owner == (int)t, "C13", "exclusion", "two threads own the mutex");
        }
        while (depth > 1) { m.Unlock(); --depth; SIM_CHECK(m.IsOwnedByThisThread() && owner == (int)t, "C13", "owner", "the mutex is given up too early"); }
        depth = 0; owner = -1;
        m.Unlock();
        SIM_CHECK(!m.IsOwnedByThisThread(), "C13", "owner", "an unlocked mutex is owned by this thread");
        pauseABit(4);
      }
      --left;
    }));
    bool ok = eventually([&] { return left == 0; });
    SIM_CHECK(ok, "C13", "stuck", "a thread never gets the mutex");
    for (int f : fs) join(f);
    SIM_CHECK(m.TryLock(), "C13", "left-locked", "the mutex is left locked"); m.Unlock();
    payloadForget(data, 8); delete data;
  }
  noLeaksBox(mark, "C13");
}

// -------------------------------------------------------- condition variable ----
WORKLOAD(box_cond, "C13", 5) {
  uint64_t mark = allocMark();
  {
    struct W { mg::box::Mutex m; mg::box::ConditionVariable c; uint64_t tokens = 0; uint64_t data = 0; int owner = -1; } w;
    uint32_t nt = 1 + in(4);
    // A wait may end spuriously, but not so often that the mutex is never released.
    bool onlyEndless = in(4) == 3;
    uint32_t total = 0, taken = 0;
    std::vector<int> fs;
    std::vector<uint32_t> counts;
    for (uint32_t t = 0; t < nt; ++t) { counts.push_back(1 + inSize(5)); total += counts[t]; }
    for (uint32_t t = 0; t < nt; ++t) fs.push_back(spawn("waiter", [&, t] {
      auto in_ = [&] {
        SIM_CHECK(w.owner == -1, "C13", "exclusion", "two threads own the mutex");
        SIM_CHECK(w.m.IsOwnedByThisThread(), "C13", "owner", "the mutex isn't owned after a wait");
        w.owner = (int)t;
        payloadRead(&w.data, 8, "data under the mutex"); payloadWrite(&w.data, 8, "data under the mutex");
      };
      for (uint32_t n = counts[t]; n > 0; --n) {
        w.m.Lock();
        in_();
        while (w.tokens == 0) {
          int how = onlyEndless ? 0 : (int)op(4);
          w.owner = -1;
          if (how < 2) w.c.Wait(w.m);
          else {
            uint64_t d = how == 2 ? inSize(20) : inSize(2000);
            uint64_t t0 = now(), m0 = nowMs();
            int form = (int)op(3);
            bool inf = in(16) == 15;
            if (inf) d = MG_TIME_INFINITE;
            bool ok = w.c.TimedWait(w.m, form ? mg::box::TimeLimit(mg::box::TimeDuration(d)) : inf ? mg::box::TimeLimit(mg::box::theTimePointInf) : mg::box::TimeLimit(mg::box::TimePoint(m0 + d)));
            uint64_t el = now() - t0;
            if (!ok) {
              SIM_CHECK(!inf, "C13", "early", "an endless wait times out after %llu us", (ull)(el / US));
              SIM_CHECK(form ? el >= d * MS : nowMs() >= m0 + d, "C13", "early", "a wait of %llu ms times out after %llu us", (ull)d, (ull)(el / US));
              probe("cond_timeout");
            } else if (w.tokens == 0) probe("cond_wake_no_token");
            // Getting the mutex back may take its time.
            if (!inf) SIM_CHECK(el <= (d + 20) * MS + 2 * busyTime() + injectedDelay(), "C13", "late", "a wait of %llu ms takes %llu us", (ull)d, (ull)(el / US));
          }
          in_();
        }
        --w.tokens; ++taken;
        payloadRead(&w.data, 8, "data under the mutex");
        w.owner = -1;
        w.m.Unlock();
        pauseABit(4);
      }
    }));
    uint32_t given = 0;
    uint32_t ng = 1 + in(2);
    for (uint32_t g = 0; g < ng; ++g) fs.push_back(spawn("giver", [&] {
      for (;;) {
        pauseABit(2);
        w.m.Lock();
        SIM_CHECK(w.owner == -1, "C13", "exclusion", "two threads own the mutex");
        w.owner = 100;
        payloadRead(&w.data, 8, "data under the mutex"); payloadWrite(&w.data, 8, "data under the mutex");
        bool more = given < total;
        uint32_t n = 0;
        if (more) {
          n = 1;
          if (op(3) == 2) n = 1 + inSize(total - given);
          given += n; w.tokens += n;
        }
        bool inside = op(2);
        w.owner = -1;
        bool all = op(3) == 2 || n > 1;
        if (inside && n) { if (all) w.c.Broadcast(); else w.c.Signal(); }
        w.m.Unlock();
        if (!inside && n) { if (all) w.c.Broadcast(); else w.c.Signal(); }
        if (!more) break;
      }
    }));
    stage("the waiters to be notified");
    bool ok = eventually([&] { return taken == total; });
    SIM_CHECK(ok, "C13", "lost-notify", "a waiter is never woken up");
    for (int f : fs) join(f);
    payloadForget(&w.data, 8);
  }
  noLeaksBox(mark, "C13");
}

// -------------------------------------------------------------------- threads ----
namespace {
struct ThWorld {
  int runs = 0; bool started = false, running = false, finished = false, seenStop = false;
  int stops = 0;
  bool untilStop = false; uint32_t work = 0;
  uint64_t data[2] = {};
  bool destroyed = false;
};
void thBody(ThWorld* w, mg::box::Thread* t) {
  SIM_CHECK(w->started, "C14", "not-started", "the body runs before the start");
  SIM_CHECK(++w->runs == 1, "C14", "twice", "the body runs twice");
  w->running = true;
  payloadRead(&w->data[0], 8, "data written before the start");
  for (uint32_t i = 0; i < w->work; ++i) {
    if (op(2)) yield(); else sleepNs(inSize(2000) * US);
    bool must = w->stops > 0;
    bool s = t->StopRequested();
    SIM_CHECK(!must || s, "C14", "stop-unseen", "a stop was requested, but isn't seen");
    SIM_CHECK(t->IsRunning(), "C14", "not-running", "the thread isn't running inside of its body");
  }
  while (w->untilStop && !t->StopRequested()) mg::box::Sleep(inSize(10));
  payloadWrite(&w->data[1], 8, "data written by the thread");
  w->running = false; w->finished = true;
}
class MyThread : public mg::box::Thread {
public:
  MyThread(ThWorld* w) : Thread("my thread with a long name"), w(w) {}
  ~MyThread() override { w->destroyed = true; }
  void Run() override { thBody(w, this); }
  ThWorld* w;
};
void thStopped(ThWorld* w, const char* how) {
  SIM_CHECK(!w->started || w->finished, "C14", "stop-early", "%s has returned, but the body %s", how, w->running ? "is running" : "did not run");
  if (w->started) payloadRead(&w->data[1], 8, "data written by the thread");
}
}
WORKLOAD(box_thread, "C14 C29", 5) {
  uint64_t mark = allocMark();
  {
    uint32_t n = 1 + inSize(4);
    for (uint32_t k = 0; k < n; ++k) {
      ThWorld* w = new ThWorld();
      bool func = in(2);
      bool start = in(5) != 4;
      w->untilStop = in(2); w->work = inSize(6);
      mg::box::ThreadFunc* tf = nullptr; MyThread* mt = nullptr;
      mg::box::Thread* base;
      if (func) {
        mg::box::ThreadFunc** self = new mg::box::ThreadFunc*(nullptr);
        tf = new mg::box::ThreadFunc("func", [w, self] { thBody(w, *self); delete self; });
        *self = tf; base = tf;
        if (!start) delete self;
      } else base = mt = new MyThread(w);
      SIM_CHECK(!base->IsRunning() && !base->StopRequested(), "C14", "running", "a new thread is running or stopped");
      std::vector<int> fs;
      if (start) {
        payloadWrite(&w->data[0], 8, "data written before the start");
        w->started = true;
        base->Start();
        SIM_CHECK(base->IsRunning() || w->finished, "C14", "not-running", "a started thread isn't running");
      }
      pauseABit(2);
      uint32_t stoppers = in(3);
      int inside = 0;
      for (uint32_t i = 0; i < stoppers; ++i) fs.push_back(spawn("stopper", [&, w] {
        ++inside;
        pauseABit(3);
        uint32_t kind = op(3);
        if (kind == 0) {
          base->Stop(); ++w->stops;
          SIM_CHECK(base->StopRequested(), "C14", "stop-unseen", "a stop was requested, but isn't seen");
        } else if (kind == 1) {
          base->BlockingStop(); ++w->stops;
          thStopped(w, "BlockingStop");
          SIM_CHECK(!base->IsRunning() && base->StopRequested(), "C14", "running", "a stopped thread is running");
        } else {
          bool fin = w->finished;
          bool r = base->IsRunning();
          if (!r && w->started) SIM_CHECK(w->finished, "C14", "running", "a running thread says it isn't");
          if (r) SIM_CHECK(w->started, "C14", "running", "a thread which wasn't started is running");
          (void)fin;
        }
        --inside;
      }));
      int end = (int)op(4);
      // A destruction needs the others to be gone.
      if (end == 0) { base->BlockingStop(); ++w->stops; thStopped(w, "BlockingStop"); SIM_CHECK(!base->IsRunning(), "C14", "running", "a stopped thread is running"); }
      if (end == 1 && !w->untilStop && start) {
        // The thread ends on its own.
        bool ok = true;
        for (int i = 0; i < 3000 && base->IsRunning(); ++i) { if (i == 1000) faultsOff(); sleepNs(10 * MS); }
        ok = !base->IsRunning();
        SIM_CHECK(ok, "C14", "stuck", "a thread never stops running");
        SIM_CHECK(w->finished, "C14", "running", "a thread isn't running, but its body didn't end");
      }
      stage("the stoppers");
      for (int f : fs) join(f);
      stage("the deletion");
      // The base class requires the thread to be finished, StopAndDelete and ThreadFunc do it on their own.
      if (func && op(2)) { delete tf; }
      else if (!func && !base->IsRunning() && op(2)) {
        // It is enough to see the thread not running, whether or not anybody has stopped it.
        if (start) SIM_CHECK(w->finished, "C14", "running", "a thread isn't running, but its body didn't end");
        delete mt;
      }
      else base->StopAndDelete();
      SIM_CHECK(!start || w->finished, "C14", "stop-early", "the thread is destroyed while its body runs");
      if (!func) SIM_CHECK(w->destroyed, "C14", "not-deleted", "StopAndDelete doesn't delete");
      if (start) payloadRead(&w->data[1], 8, "data written by the thread");
      SIM_CHECK(w->runs == (start ? 1 : 0), "C14", "runs", "%d executions", w->runs);
      payloadForget(w->data, 16); delete w;
    }
  }
  noLeaksBox(mark, "C14");
}

// ----------------------------------------------------------- thread-local pool ----
WORKLOAD(box_pool, "C15 C29", 5) {
  int kind = (int)in(POOLS);
  uint32_t batch = (uint32_t)poolBatch(kind);
  uint64_t mark = allocMark();
  struct W {
    std::map<void*, int> owned; size_t inUse = 0, peak = 0;
    std::vector<void*> shared; std::set<void*> known;
    mg::box::Mutex m;
  };
  W* w = new W();
  auto* knownAll = new std::set<void*>();
  uint32_t rounds = 1 + in(3);
  uint32_t maxThreads = 1;
  uint64_t stamp = 0;
  for (uint32_t r = 0; r < rounds; ++r) {
    uint32_t nt = 1 + in(4);
    if (nt + 1 > maxThreads) maxThreads = nt + 1;
    std::vector<mg::box::ThreadFunc*> ts;
    for (uint32_t t = 0; t < nt; ++t) ts.push_back(new mg::box::ThreadFunc("pool", [&, t] {
      std::vector<void*> mine;
      uint32_t bias = in(3);
      auto take = [&] {
        ++w->inUse; if (w->inUse > w->peak) w->peak = w->inUse;
        void* p = poolNew(kind);
        SIM_CHECK(p != nullptr && ((uintptr_t)p & 7) == 0, "C15", "pointer", "a bad object");
        for (auto& o : w->owned) {
          char* a = (char*)o.first; char* b = (char*)p;
          SIM_CHECK(a + 24 <= b || b + 24 <= a, "C15", "shared", "an object is handed out twice");
        }
        w->owned[p] = self(); knownAll->insert(p);
        payloadWrite(p, 24, "contents of a pool object");
        uint64_t* q = (uint64_t*)p; q[0] = q[1] = q[2] = (uint64_t)(uintptr_t)p ^ 0x5555;
        return p;
      };
      auto give = [&](void* p) {
        uint64_t* q = (uint64_t*)p;
        for (int i = 0; i < 3; ++i) SIM_CHECK(q[i] == ((uint64_t)(uintptr_t)p ^ 0x5555), "C15", "overwritten", "a taken object was changed by somebody");
        payloadWrite(p, 24, "contents of a pool object");
        w->owned.erase(p); --w->inUse;
        poolDel(kind, p);
      };
      for (uint32_t n = 1 + inSize(60); n > 0; --n) {
        uint32_t k = op(8);
        if (k < 3 + bias && mine.size() < 40) mine.push_back(take());
        else if (k < 6 && !mine.empty()) { size_t i = op((uint32_t)mine.size()); void* p = mine[i]; mine.erase(mine.begin() + i); give(p); }
        else if (k == 6 && !mine.empty()) { w->m.Lock(); w->shared.push_back(mine.back()); w->m.Unlock(); mine.pop_back(); }
        else {
          void* p = nullptr;
          w->m.Lock();
          if (!w->shared.empty()) { p = w->shared.back(); w->shared.pop_back(); }
          w->m.Unlock();
          if (p) mine.push_back(p);
        }
        if (op(16) == 15) pauseABit(2);
      }
      bool keep = op(2);
      for (void* p : mine) if (keep) { w->m.Lock(); w->shared.push_back(p); w->m.Unlock(); } else give(p);
    }));
    for (auto* t : ts) t->Start();
    stage("the threads");
    for (auto* t : ts) t->BlockingStop();
    for (auto* t : ts) delete t;
  }
  // Everything which isn't in use is in a cache and comes back before anything new is allocated.
  for (void* p : w->shared) {
    uint64_t* q = (uint64_t*)p;
    for (int i = 0; i < 3; ++i) SIM_CHECK(q[i] == ((uint64_t)(uintptr_t)p ^ 0x5555), "C15", "overwritten", "a taken object was changed by somebody");
    w->owned.erase(p); --w->inUse; payloadWrite(p, 24, "contents of a pool object"); poolDel(kind, p);
  }
  SIM_CHECK(w->inUse == 0, "C15", "harness", "objects in use");
  size_t peak = w->peak;
  w->shared = std::vector<void*>();
  w->~W(); memset((void*)w, 0, sizeof(W)); operator delete(w);
  std::set<void*> known(*knownAll);
  delete knownAll;
  size_t nk = known.size();
  // The unit blocks.
  uint64_t bytes = poolUnitSize() * (batch + 1);
  std::vector<void*> got;
  uint64_t blocks;
  {
    uint64_t knownBytes = 0; (void)knownBytes;
    std::set<void*> k2; k2.swap(known);
    std::vector<void*> kv(k2.begin(), k2.end()); k2.clear();
    size_t f = 0; void* pc = nullptr;
    uint64_t kvBlocks = kv.empty() ? 0 : 1;
    blocks = liveSince(mark, &f, &pc) - kvBlocks;
    uint64_t objects = blocks * (batch + 1);
    SIM_CHECK(objects <= peak + (uint64_t)(maxThreads + 1) * (batch + 1), "C15", "growth", "%llu objects are allocated, the peak use was %zu by %u threads, the batch is %u", (ull)objects, peak, maxThreads, batch);
    // All of the allocated objects can be taken again by one thread with nothing allocated.
    got.reserve(objects + 1);
    std::set<void*>* uniq = new std::set<void*>();
    uint64_t extra = liveSince(mark, &f, &pc);
    for (uint64_t i = 0; i < objects; ++i) {
      void* p = poolNew(kind);
      for (void* o : got) SIM_CHECK((char*)o + 24 <= (char*)p || (char*)p + 24 <= (char*)o, "C15", "shared", "an object is handed out twice");
      got.push_back(p);
      payloadWrite(p, 24, "contents of a pool object");
    }
    SIM_CHECK(liveSince(mark, &f, &pc) == extra, "C15", "lost", "objects freed by the threads are lost: allocated %llu objects, %llu blocks more to get them all", (ull)objects, (ull)(liveSince(mark, &f, &pc) - extra));
    delete uniq;
    for (void* p : got) { payloadForget(p, 24); poolDel(kind, p); }
  }
  (void)bytes; (void)nk; (void)stamp;
}

// ------------------------------------------------------------- shared pointers ----
namespace {
struct SpState { int refs = 0; int destroyed = 0; Shared* obj = nullptr; bool child = false; };
std::vector<SpState>* g_sp;
void spDestroyed(void* obj, int id) {
  SpState& s = (*g_sp)[id];
  SIM_CHECK(s.obj == obj || s.obj == nullptr, "C16", "identity", "a wrong object is destroyed");
  SIM_CHECK(s.destroyed == 0, "C16", "twice", "object %d is destroyed twice", id);
  SIM_CHECK(s.refs == 0, "C16", "early", "object %d is destroyed with %d references left", id, s.refs);
  s.destroyed = 1;
  payloadWrite(((Shared*)obj)->payload, sizeof(((Shared*)obj)->payload), "data written by a reference's holder");
  payloadForget(((Shared*)obj)->payload, sizeof(((Shared*)obj)->payload));
}
int spId(const SPtr& p) { return p.IsSet() ? p->id : -1; }
}
WORKLOAD(box_shared, "C16 C29", 5) {
  uint64_t mark = allocMark();
  {
    onSharedDestroy = spDestroyed;
    std::vector<SpState> st;
    uint32_t no = 1 + in(4);
    st.resize(no + 64);
    g_sp = &st;
    uint32_t made = 0;
    std::vector<SPtr> main(no);
    auto get = [&](int id) { if (id >= 0) ++st[id].refs; };
    auto put = [&](int id) { if (id >= 0) --st[id].refs; };
    for (uint32_t i = 0; i < no; ++i) { get((int)i); spNew(&main[i], (int)i); st[i].obj = main[i].GetPointer(); ++made; }
    uint32_t nt = 1 + in(4);
    std::vector<int> fs;
    constexpr int SL = 4;
    struct Slots { SPtr s[SL]; CPtr c; };
    mg::box::Mutex m; std::vector<SPtr> bag(2);
    for (uint32_t t = 0; t < nt; ++t) {
      Slots* sl = new Slots();
      for (int k = 0; k < SL; ++k) if (in(3)) { int o = (int)in(no); get(o); spCopy(sl->s[k], main[o]); }
      fs.push_back(spawn("holder", [&, t, sl] {
        auto use = [&](SPtr& p) {
          if (!p.IsSet()) return;
          SIM_CHECK(!st[p->id].destroyed, "C16", "dangling", "a referenced object is destroyed");
          payloadWrite(&p->payload[t], 8, "data written by a reference's holder");
        };
        for (uint32_t n = 1 + inSize(14); n > 0; --n) {
          int a = (int)op(SL), b = (int)op(SL);
          SPtr& A = sl->s[a]; SPtr& B = sl->s[b];
          int ia = spId(A), ib = spId(B);
          switch (op(12)) {
          case 0: if (a != b || true) { get(ib); put(ia); spCopy(A, B); } break;
          case 1: if (a != b) { put(ia); } spMove(A, B); break;
          case 2: put(ia); spClear(A); break;
          case 3: get(ib); put(ia); spSet(A, B.GetPointer()); break;
          case 4: spSwap(A, B); break;
          case 5: spRewrap(A); break;
          case 6: {
            alignas(SPtr) char mem[sizeof(SPtr)]; SPtr* x = (SPtr*)mem;
            if (op(2)) { get(ia); spCopyCtor(x, A); put(ia); spDtor(x); }
            else { spMoveCtor(x, A); use(*x); put(ia); spDtor(x); }
            break;
          }
          case 7: if (made < st.size()) {
            int id = (int)made++; st[id].child = true;
            put(sl->c.IsSet() ? sl->c->id : -1);
            get(id); spNewChild(&sl->c, id); st[id].obj = sl->c.GetPointer();
          } break;
          case 8: {
            int ic = sl->c.IsSet() ? sl->c->id : -1;
            if (op(2)) { get(ic); put(ia); spChildCopy(A, sl->c); }
            else { put(ia); spChildMove(A, sl->c); }
            break;
          }
          case 9: {
            int ic = sl->c.IsSet() ? sl->c->id : -1;
            alignas(SPtr) char mem[sizeof(SPtr)]; SPtr* x = (SPtr*)mem;
            if (op(2)) { get(ic); spChildCopyCtor(x, sl->c); } else spChildMoveCtor(x, sl->c);
            use(*x);
            put(ic); spDtor(x);
            break;
          }
          case 10: {  // Exchange with the others.
            int k = (int)op(2);
            m.Lock();
            spSwap(A, bag[k]);
            m.Unlock();
            break;
          }
          default: use(A); use(B); pauseABit(3); break;
          }
          if (op(2)) use(sl->s[op(SL)]);
          if (int bad = spCompare(A, B, sl->c)) violation("C16", "compare", "a comparison of shared pointers (%d) is wrong", bad);
        }
        // Drop all.
        for (int k = 0; k < SL; ++k) use(sl->s[k]);
        for (int k = 0; k < SL; ++k) { put(spId(sl->s[k])); spClear(sl->s[k]); }
        if (sl->c.IsSet()) { put(sl->c->id); sl->c.Clear(); }
        delete sl;
      }));
    }
    for (uint32_t i = 0; i < no; ++i) { if (op(2)) yield(); put((int)i); spClear(main[i]); }
    for (int f : fs) join(f);
    for (auto& b : bag) { put(spId(b)); spClear(b); }
    for (uint32_t i = 0; i < made; ++i) {
      SIM_CHECK(st[i].refs == 0, "C16", "harness", "the model has references left");
      SIM_CHECK(st[i].destroyed == 1, "C16", "leak", "object %u isn't destroyed after its last reference", i);
    }
    // A chain: related source and destination.
    if (in(2)) {
      for (auto& s : st) s = SpState();
      SPtr head; made = 0;
      int len = 1 + (int)inSize(6);
      for (int i = len - 1; i >= 0; --i) {
        SPtr x; st[i].refs = 1; spNew(&x, i); st[i].obj = x.GetPointer();
        spMove(x->next, head); spMove(head, x);
      }
      int at = 0;
      while (head.IsSet()) {
        SIM_CHECK(head->id == at, "C16", "chain", "a wrong element of the chain");
        st[at].refs = 0; ++at;
        bool copy = op(2);
        if (copy && head->next.IsSet()) { Shared* nx = head->next.GetPointer(); spSet(head, nx); } else spMove(head, head->next);
      }
      SIM_CHECK(at == len, "C16", "chain", "a wrong length of the chain");
      for (int i = 0; i < len; ++i) SIM_CHECK(st[i].destroyed == 1, "C16", "leak", "an element of the chain isn't destroyed");
    }
    g_sp = nullptr;
  }
  noLeaksBox(mark, "C16");
}

// ------------------------------------------------------------------- time ----
WORKLOAD(box_time, "C28", 5) {
  uint64_t mark = allocMark();
  {
    uint32_t nt = 1 + in(3);
    // The latest time seen by anybody, as the readings are ordered by the scheduling.
    uint64_t seenMs = 0, seenNs = 0; double seenPrecise = 0;
    auto read = [&](uint32_t what) {
      uint64_t before = now();
      if (what == 0) {
        uint64_t minSeen = seenMs;
        uint64_t v = mg::box::GetMilliseconds();
        SIM_CHECK(v >= minSeen, "C28", "back", "the milliseconds go back from %llu to %llu", (ull)minSeen, (ull)v);
        SIM_CHECK(v >= before / MS && v <= now() / MS, "C28", "wrong-time", "%llu ms are read between %llu and %llu ns", (ull)v, (ull)before, (ull)now());
        if (v > seenMs) seenMs = v;
      } else if (what == 1) {
        uint64_t minSeen = seenNs;
        uint64_t v = mg::box::GetNanoseconds();
        SIM_CHECK(v >= minSeen, "C28", "back", "the nanoseconds go back from %llu to %llu", (ull)minSeen, (ull)v);
        SIM_CHECK(v >= before && v <= now(), "C28", "wrong-time", "%llu ns are read between %llu and %llu ns", (ull)v, (ull)before, (ull)now());
        if (v > seenNs) seenNs = v;
      } else {
        double minSeen = seenPrecise;
        double v = mg::box::GetMillisecondsPrecise();
        SIM_CHECK(v >= minSeen, "C28", "back", "the precise milliseconds go back from %f to %f", minSeen, v);
        SIM_CHECK(v >= (double)before / 1e6 - 0.001 && v <= (double)now() / 1e6 + 0.001, "C28", "wrong-time", "%f ms are read between %llu and %llu ns", v, (ull)before, (ull)now());
        if (v > seenPrecise) seenPrecise = v;
      }
    };
    std::vector<int> fs;
    for (uint32_t t = 0; t < nt; ++t) fs.push_back(spawn("timer", [&] {
      uint32_t n = 1 + inSize(8);
      for (uint32_t i = 0; i < n; ++i) {
        int how = (int)op(4);
        uint64_t d = in(3) ? inSize(3000) : in(3) * 1000 + in(3);
        if (in(24) == 23) d = (uint64_t)(1 + in(3)) * 86400000 + in(2) * 999;
        if (how == 0) {
          uint64_t t0 = now();
          mg::box::Sleep(d);
          uint64_t el = now() - t0;
          SIM_CHECK(el >= d * MS, "C28", "sleep-early", "a sleep of %llu ms takes %llu us", (ull)d, (ull)(el / US));
          SIM_CHECK(el <= (d + 20) * MS + 2 * busyTime() + injectedDelay(), "C28", "sleep-late", "a sleep of %llu ms takes %llu us", (ull)d, (ull)(el / US));
        } else if (how == 1) {
          read(op(3));
        } else if (how == 2) {
          // From a duration to a point.
          bool inf = in(8) == 7;
          uint64_t dd = inf ? MG_TIME_INFINITE : in(16) == 15 ? MG_TIME_INFINITE - in(3) - 1 : d;
          mg::box::TimeDuration dur(dd);
          uint64_t b = nowMs();
          mg::box::TimePoint p = op(2) ? dur.ToPointFromNow() : mg::box::TimeLimit(dur).ToPointFromNow();
          uint64_t a = nowMs();
          auto add = [](uint64_t x, uint64_t y) { return x >= UINT64_MAX - y ? UINT64_MAX : x + y; };
          SIM_CHECK(p.myValue >= add(b, dd) && p.myValue <= add(a, dd), "C28", "point", "%llu ms from now (%llu..%llu) are at %llu", (ull)dd, (ull)b, (ull)a, (ull)p.myValue);
          SIM_CHECK(mg::box::TimeLimit(p).ToPointFromNow().myValue == p.myValue, "C28", "point", "a point in time moves");
        } else {
          // From a point to a duration, also in the past.
          bool inf = in(8) == 7;
          uint64_t b = nowMs();
          uint64_t at = inf ? MG_TIME_INFINITE : in(4) == 3 ? (b > d ? b - d : 0) : b + d;
          if (op(2)) { yield(); sleepNs(inSize(20) * MS); }
          uint64_t b2 = nowMs();
          mg::box::TimeDuration r = mg::box::TimeLimit(mg::box::TimePoint(at)).ToDurationFromNow();
          uint64_t a = nowMs();
          if (inf) SIM_CHECK(r.myValue == MG_TIME_INFINITE, "C28", "duration", "infinity is in %llu ms", (ull)r.myValue);
          else SIM_CHECK(r.myValue <= (at > b2 ? at - b2 : 0) && r.myValue >= (at > a ? at - a : 0), "C28", "duration", "%llu is in %llu ms from %llu..%llu", (ull)at, (ull)r.myValue, (ull)b2, (ull)a);
          SIM_CHECK(mg::box::TimeLimit(mg::box::TimeDuration(d)).ToDurationFromNow().myValue == d, "C28", "duration", "a duration changes");
        }
        read(op(3));
      }
    }));
    stage("the sleeps to end");
    for (int f : fs) join(f);
  }
  noLeaksBox(mark, "C28");
}
