// Adapters instantiating the header-only templates of mg::box inside the tested code's text.
#pragma once
#include "mg/box/MultiProducerQueueIntrusive.h"
#include "mg/box/RefCount.h"
#include "mg/box/SharedPtr.h"
#include "mg/box/ThreadLocalPool.h"
#include <cstdint>

namespace ad {

struct MpqItem {
  MpqItem* myNext = nullptr;
  int id = 0, producer = 0;
  bool invoked = false, returned = false, popped = false, result = false;
  int expect = -1;
  uint64_t inv = 0, ret = 0;
  uint64_t payload = 0;
};
typedef mg::box::MultiProducerQueueIntrusive<MpqItem> Mpq;
bool mpqPush(Mpq* q, MpqItem* i);
bool mpqPushMany(Mpq* q, MpqItem* first);
bool mpqPushManyRev(Mpq* q, MpqItem* first);
bool mpqPushManyRev2(Mpq* q, MpqItem* first, MpqItem* last);
MpqItem* mpqPopAll(Mpq* q);
MpqItem* mpqPopAllTail(Mpq* q, MpqItem** tail);
MpqItem* mpqPopAllRev(Mpq* q);
bool mpqIsEmpty(Mpq* q);

struct PoolBody { uint64_t w[3]; };
template<int N> struct PoolObj : mg::box::ThreadPooled<PoolObj<N>, N> { uint64_t w[3]; };
void* poolNew(int kind);
void poolDel(int kind, void* p);
constexpr int POOLS = 4;
int poolBatch(int kind);
size_t poolUnitSize();

struct SharedWorld { int destroyed = 0; };
extern void (*onSharedDestroy)(void* obj, int id);
class Shared {
  SHARED_PTR_API(Shared, myRef)
public:
  Shared(int id, int refs) : id(id), myRef((uint32_t)refs) {}
  Shared(int id) : id(id) {}
  int id;
  uint64_t payload[8] = {};
  Ptr next;                       // Chains of objects.
  uint32_t refs() const { return myRef.Get(); }
protected:
  virtual ~Shared();
  mg::box::RefCount myRef;
};
class SharedChild : public Shared {
  SHARED_PTR_RENEW_API(SharedChild)
public:
  SharedChild(int id) : Shared(id) {}
  uint64_t more[2] = {};
};
typedef mg::box::SharedPtrIntrusive<Shared> SPtr;
typedef mg::box::SharedPtrIntrusive<SharedChild> CPtr;
void spNew(SPtr* out, int id);
void spNewChild(CPtr* out, int id);
void spCopyCtor(SPtr* a, const SPtr& b);          // Placement.
void spMoveCtor(SPtr* a, SPtr& b);
void spChildCopyCtor(SPtr* a, const CPtr& b);
void spChildMoveCtor(SPtr* a, CPtr& b);
void spCopy(SPtr& a, const SPtr& b);
void spMove(SPtr& a, SPtr& b);
void spChildCopy(SPtr& a, const CPtr& b);
void spChildMove(SPtr& a, CPtr& b);
void spSet(SPtr& a, Shared* p);
void spClear(SPtr& a);
void spSwap(SPtr& a, SPtr& b);
// Every comparison operator; the number of a wrong one or 0.
int spCompare(const SPtr& a, const SPtr& b, const CPtr& c);
void spRewrap(SPtr& a);
void spDtor(SPtr* a);
}
