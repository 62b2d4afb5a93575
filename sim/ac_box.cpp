#include "ac_box.h"
#include <new>
#define NI __attribute__((noinline))
namespace ad {
NI bool mpqPush(Mpq* q, MpqItem* i) { return q->Push(i); }
NI bool mpqPushMany(Mpq* q, MpqItem* first) { return q->PushMany(first); }
NI bool mpqPushManyRev(Mpq* q, MpqItem* first) { return q->PushManyFastReversed(first); }
NI bool mpqPushManyRev2(Mpq* q, MpqItem* first, MpqItem* last) { return q->PushManyFastReversed(first, last); }
NI MpqItem* mpqPopAll(Mpq* q) { return q->PopAll(); }
NI MpqItem* mpqPopAllTail(Mpq* q, MpqItem** tail) { MpqItem* t = nullptr; MpqItem* r = q->PopAll(t); *tail = t; return r; }
NI MpqItem* mpqPopAllRev(Mpq* q) { return q->PopAllFastReversed(); }
NI bool mpqIsEmpty(Mpq* q) { return q->IsEmpty(); }

NI void* poolNew(int kind) {
  switch (kind) {
  case 0: return new PoolObj<1>();
  case 1: return new PoolObj<2>();
  case 2: return new PoolObj<3>();
  default: return new PoolObj<8>();
  }
}
NI void poolDel(int kind, void* p) {
  switch (kind) {
  case 0: delete (PoolObj<1>*)p; break;
  case 1: delete (PoolObj<2>*)p; break;
  case 2: delete (PoolObj<3>*)p; break;
  default: delete (PoolObj<8>*)p; break;
  }
}
int poolBatch(int kind) { static const int b[] = {1, 2, 3, 8}; return b[kind]; }
size_t poolUnitSize() { return sizeof(mg::box::ThreadLocalPoolUnit<PoolObj<1>>); }

void (*onSharedDestroy)(void* obj, int id);
NI Shared::~Shared() { onSharedDestroy(this, id); }
NI void spNew(SPtr* out, int id) { *out = Shared::NewShared(id); }
NI void spNewChild(CPtr* out, int id) { *out = SharedChild::NewShared(id); }
NI void spCopyCtor(SPtr* a, const SPtr& b) { new (a) SPtr(b); }
NI void spMoveCtor(SPtr* a, SPtr& b) { new (a) SPtr(std::move(b)); }
NI void spChildCopyCtor(SPtr* a, const CPtr& b) { new (a) SPtr(b); }
NI void spChildMoveCtor(SPtr* a, CPtr& b) { new (a) SPtr(std::move(b)); }
NI void spCopy(SPtr& a, const SPtr& b) { a = b; }
NI void spMove(SPtr& a, SPtr& b) { a = std::move(b); }
NI void spChildCopy(SPtr& a, const CPtr& b) { a = b; }
NI void spChildMove(SPtr& a, CPtr& b) { a = std::move(b); }
NI void spSet(SPtr& a, Shared* p) { a.Set(p); }
NI void spClear(SPtr& a) { a.Clear(); }
NI void spSwap(SPtr& a, SPtr& b) { SPtr t(std::move(a)); a = std::move(b); b = std::move(t); }
NI int spCompare(const SPtr& a, const SPtr& b, const CPtr& c) {
  const Shared* pa = a.GetPointer(); const Shared* pb = b.GetPointer(); const SharedChild* pc = c.GetPointer();
  bool ab = pa == pb, ac = pa == (const Shared*)pc;
  if ((a == b) != ab) return 1;
  if ((a != b) != !ab) return 2;
  if ((a == pb) != ab) return 3;
  if ((a != pb) != !ab) return 4;
  if ((pb == a) != ab) return 5;
  if ((pb != a) != !ab) return 6;
  if ((a == c) != ac) return 7;
  if ((a != c) != !ac) return 8;
  if ((a == pc) != ac) return 9;
  if ((a != pc) != !ac) return 10;
  if ((pc == a) != ac) return 11;
  if ((pc != a) != !ac) return 12;
  if ((a == nullptr) != (pa == nullptr)) return 13;
  if ((a != nullptr) != (pa != nullptr)) return 14;
  if ((nullptr == a) != (pa == nullptr)) return 15;
  if ((nullptr != a) != (pa != nullptr)) return 16;
  if (a.IsSet() != (pa != nullptr)) return 17;
  if (pa && (&*a != pa || a.operator->() != pa)) return 18;
  return 0;
}
NI void spRewrap(SPtr& a) { Shared* p = a.Unwrap(); a = SPtr::Wrap(p); }
NI void spDtor(SPtr* a) { a->~SPtr(); }
}
