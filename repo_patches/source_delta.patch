From 259a3931c61027df40ab9b93223e12310be0eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:50 +0000
Subject: [PATCH 01/31] fix: task scheduler with a batch size of 1 never
 scheduled anything

With a sub-queue size 1 and one worker thread the batch limit is 1, and
the pre-incremented counter reached it before the first task was
handled. The worker was spinning forever, no task was ever executed.
---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..c4c9ee7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -169,7 +169,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -214,7 +214,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From 6b328bff52c1f90733817158eb74943e09a427bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 02/31] fix: TaskScheduler::IsEmpty() could miss a task being
 executed

The worker states were checked before the ready queue. A worker could be
seen idle, then wake up and pop the last ready task, and then the queue
looked empty. IsEmpty() and WaitEmpty() returned success while the task
was still running.
---
 src/mg/sch/TaskScheduler.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index c4c9ee7..07ab245 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,6 +49,20 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The queues filled by the sched-thread must be checked before the workers. While
+		// the scheduler lock is held, nothing new can appear in them. If they are empty,
+		// then no worker can start a new task after that. With the reversed order a worker
+		// could be seen idle, then pop the last ready task, and the ready queue would look
+		// empty while the task is being executed.
+		bool isEmpty =
+			myQueueWaiting.Count() == 0 &&
+			myQueuePending.IsEmpty() &&
+			myQueueReady.Count() == 0;
+		if (!isEmpty)
+		{
+			PrivSchedulerUnlock();
+			return false;
+		}
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
@@ -61,11 +75,9 @@ namespace sch {
 				return false;
 			}
 		}
-		bool isEmpty =
-			myQueueFront.IsEmpty() &&
-			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+		// The front queue goes last. The tasks, which were being executed during the
+		// checks above, could be adding new tasks only into it.
+		isEmpty = myQueueFront.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
-- 
2.43.0


From dea0359fb3739ac1e5007c75b3148b6ab3c1e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 03/31] fix: drop of a shared reference didn't order the
 holder's writes before the destruction

RefCount::Dec() was relaxed. Writes made by one thread via its reference
were not synchronized with the destructor executed by another thread which
happened to drop the last reference.
---
 src/mg/box/RefCount.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..4b5d148 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,9 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		// Release makes the writes done via this reference visible to the thread dropping
+		// the last one. Acquire makes that thread see them before the destruction.
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From f245d5151fd4889bfe772dd0f55f2adcb5d28434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 04/31] fix: move of a shared pointer into another one of the
 same object leaked a reference

When two different pointers referenced the same object, the move-assign
cleared the source without dropping its reference.
---
 src/mg/box/SharedPtr.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..eb5a8fb 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -229,12 +229,16 @@ protected:																					\
 		// being deleted. This in turn will delete obj2, which was kept alive only by
 		// obj1. The new pointer becomes garbage. Need to steal the pointer first. So obj1
 		// is deleted, but its 'myNext' is already null.
+		//
+		// When both the pointers reference the same object, the old reference still has
+		// to be dropped. Unless this is a move into itself.
+		if (this == &aOther)
+			return *this;
 		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
@@ -244,13 +248,13 @@ protected:																					\
 	SharedPtrIntrusive<T>::operator=(
 		SharedPtrIntrusive<ChildT>&& aOther)
 	{
-		// Same as for the other move-assign.
+		// Same as for the other move-assign. Except that the pointers are never the same
+		// one, because have different types.
 		T* oldObj = myObject;
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From d91628b16bb831dcc542af7a6e65d76ee0a7ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 05/31] fix: a signal send merged into another one didn't
 release the sender's writes

Signal::Send() of an already set signal was a failed compare-exchange,
which has no release semantics. The receiver of the signal could miss
the writes done before such a send.
---
 src/mg/box/Signal.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/Signal.cpp b/src/mg/box/Signal.cpp
index a48b17b..3c2aa78 100644
--- a/src/mg/box/Signal.cpp
+++ b/src/mg/box/Signal.cpp
@@ -30,8 +30,15 @@ namespace box {
 		// condition variable is signaled by another thread. That
 		// is one of the key features of Signal - lock-free signal
 		// re-send if it is not consumed yet.
-		if (!myState.CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE))
-			return;
+		while (!myState.CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE))
+		{
+			// Even then the writes done before this send must be
+			// visible to the receiver of the already set signal.
+			// A failed exchange doesn't release them.
+			if (myState.CmpExchgStrongRelease(oldState, oldState))
+				return;
+			oldState = SIGNAL_STATE_EMPTY;
+		}
 
 		// The signal must be done under a lock. Consider how the
 		// blocking receive works:
-- 
2.43.0


From fa96a7080d814563d187d9999a76cefe1fa78d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 06/31] fix: infinite and huge timed waits on a condition
 variable timed out at once

The timeout in milliseconds overflowed when was converted to nanoseconds
by the standard library.
---
 src/mg/box/ConditionVariable.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..fab49b2 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -5,6 +5,11 @@
 namespace mg {
 namespace box {
 
+	// A century. The standard library would overflow when converts longer timeouts,
+	// including the infinite one, to nanoseconds, and wouldn't wait at all.
+	static constexpr uint64_t theConditionVariableMaxTimeout =
+		100ULL * 365 * 24 * 3600 * 1000;
+
 	void
 	ConditionVariable::Wait(
 		Mutex& aMutex)
@@ -35,8 +40,16 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		if (timeout < theConditionVariableMaxTimeout)
+		{
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		}
+		else
+		{
+			myHandle.wait(aMutex.myHandle);
+		}
 
 		MG_BOX_ASSERT(aMutex.myOwner == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 795d73377e9b8ecd2f2d01e35c10a3623f4aaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 07/31] fix: stop of IOCore could hang until the closest task
 deadline

---
 src/mg/aio/IOCore_IOCP.cpp    | 13 +++++++------
 src/mg/aio/IOCore_epoll.cpp   | 13 +++++++------
 src/mg/aio/IOCore_iouring.cpp | 13 +++++++------
 src/mg/aio/IOCore_kqueue.cpp  | 13 +++++++------
 4 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/mg/aio/IOCore_IOCP.cpp b/src/mg/aio/IOCore_IOCP.cpp
index b56a7e2..e342867 100644
--- a/src/mg/aio/IOCore_IOCP.cpp
+++ b/src/mg/aio/IOCore_IOCP.cpp
@@ -322,6 +322,13 @@ namespace aio {
 		if (didWait)
 			return false;
 
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there are deadlines to wait
+			// for, because the wakeup event is already consumed.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -337,12 +344,6 @@ namespace aio {
 				duration = INFINITE - 1;
 			timeout = (DWORD)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		else
 		{
 			timeout = INFINITE;
diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..97fdbac 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -336,6 +336,13 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there are deadlines to wait
+			// for, because the wakeup event is already consumed.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -347,12 +354,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		poll(&pfd, 1, pollTimeout);
 		return false;
 	}
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..9b33164 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -486,6 +486,13 @@ namespace aio {
 		pfd.fd = myRingEventFd;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there are deadlines to wait
+			// for, because the wakeup event is already consumed.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -497,12 +504,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 		if (poll(&pfd, 1, pollTimeout) > 0)
 		{
 			uint64_t num;
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..64f29ce 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -346,6 +346,13 @@ namespace aio {
 		pfd.fd = myNativeCore;
 		pfd.events = POLLIN;
 		int pollTimeout = -1;
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		{
+			// The scheduler might be woken up by the special event for shutting down.
+			// Need to exit instead of going to sleep. Even if there are deadlines to wait
+			// for, because the wakeup event is already consumed.
+			return false;
+		}
 		if (myWaitingQueue.Count() != 0)
 		{
 			uint64_t deadline = myWaitingQueue.GetTop()->myDeadline;
@@ -357,12 +364,6 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
-		{
-			// The scheduler might be woken up by the special event for shutting down.
-			// Need to exit instead of going into the infinite sleep.
-			return false;
-		}
 
 		poll(&pfd, 1, pollTimeout);
 		return false;
-- 
2.43.0


From d10c15b98e4396284645cb79b6d5f228b1a60656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 08/31] fix: SocketSetNoDelay sets the asked value instead of
 its inverse

---
 src/mg/net/Socket_Unix.cpp | 4 ++--
 src/mg/net/Socket_Win.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..b358b53 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -182,7 +182,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_IPV6, IPV6_V6ONLY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..8cb5e8d 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -78,7 +78,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_IPV6, IPV6_V6ONLY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From 132f6edc02fb9bc78791f2f4910d3049603432a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 09/31] fix: allow a TCPSocket shutdown requested before the
 connect of a posted task

---
 src/mg/aio/TCPSocketCtl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..ceab1f0 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -130,11 +130,11 @@ namespace aio {
 	TCPSocketCtl::AddConnect(
 		const TCPSocketCtlConnectParams& aParams)
 	{
-		// Connect or attach are mutually exclusive and are always the first ctl. Shutdown
-		// couldn't be requested before them.
+		// Connect or attach are mutually exclusive and are always the first ctl. Except
+		// for a shutdown, which could be requested by another thread while the task didn't
+		// have a socket yet. Then it is going to be applied after the connect.
 		MG_BOX_ASSERT(!myHasConnect);
 		MG_BOX_ASSERT(!myHasAttach);
-		MG_BOX_ASSERT(!myHasShutdown);
 		MG_BOX_ASSERT(myConnectSocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myConnectDomain == nullptr);
 		MG_BOX_ASSERT(!myConnectIsStarted);
-- 
2.43.0


From a9ddfc9104776a95848d2eb7307546f3636633c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 10/31] fix: do not drop a TCPSocket shutdown requested
 together with a wrap

---
 src/mg/aio/TCPSocketCtl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index ceab1f0..3e57b21 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -207,7 +207,8 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(myHasShutdown);
 		// Shutdown on a non-connected socket simply does not work. Wait to kill it later.
-		if (myHasConnect)
+		// Same if the socket isn't attached yet.
+		if (myHasConnect || myHasAttach)
 			return true;
 		
 		mg::net::Socket sock = myTask->GetSocket();
@@ -314,6 +315,12 @@ namespace aio {
 		myTask->AttachSocket(myAttachSocket);
 		myAttachSocket = mg::net::theInvalidSocket;
 		PrivStartHandshake();
+		if (myHasShutdown)
+		{
+			// Shutdown is already waiting. Reschedule the task to do another round of ctl
+			// messages processing.
+			myTask->Reschedule();
+		}
 	}
 
 	bool
-- 
2.43.0


From 06725a98207d1f1b1dca318e4bcd0f9a753286a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 11/31] fix: a receive requested in
 TCPSocketSubscription::OnSend() was not started

---
 src/mg/aio/TCPSocketIFace.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..3bbe813 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -459,7 +459,12 @@ namespace aio {
 		uint32_t aByteCount)
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
+		bool hadRecv = myRecvSize > 0;
 		mySub->OnSend(aByteCount);
+		// Receives are processed before sends. A receive requested in the callback when
+		// there were none before needs one more round to be started.
+		if (!hadRecv && myRecvSize > 0)
+			myTask.Reschedule();
 	}
 
 	void
-- 
2.43.0


From 4673562850cc0fa8a9f176d2e53058983de0f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 12/31] fix: skipping empty buffers corrupted the buffers
 shared with other sockets

---
 src/mg/net/Buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..08e7c2e 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,9 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// Do not alter the buffer members. The buffers can be shared by multiple
+				// links. Alteration here would break the other links.
+				head.Set(head->myNext.GetPointer());
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0


From 2010a685f33f09e751331831d0204ac4ff50f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 13/31] fix: a chain of buffers sent into a closed socket
 leaked

---
 src/mg/aio/TCPSocketIFace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 3bbe813..96a9c55 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -230,7 +230,9 @@ namespace aio {
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
 		if (myTask.IsClosed())
 		{
-			delete aHead;
+			// Drop all the links, not just the first one.
+			mg::net::BufferLinkList list;
+			list.AppendMove(aHead);
 			return;
 		}
 		mySendQueue.AppendMove(aHead);
-- 
2.43.0


From 565f8b4698fd065984fe389f28aa519ebeb41770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 14/31] fix: closing a closing TCPServer again aborted the
 process

---
 src/mg/aio/TCPServer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..3d807e7 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -50,6 +50,9 @@ namespace aio {
 	TCPServer::PostClose()
 	{
 		mg::box::MutexLock lock(myMutex);
+		// Might be already closed or closing by another thread.
+		if (myState >= TCP_SERVER_STATE_CLOSING)
+			return;
 		if (myState == TCP_SERVER_STATE_LISTENING)
 		{
 			myState = TCP_SERVER_STATE_CLOSING;
-- 
2.43.0


From 00af9feb7fda9e8c7cb07a0d018110b0931e0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 15/31] fix: a connect ignored because of a close leaked the
 user's socket

---
 src/mg/aio/TCPSocketIFace.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 96a9c55..ccc7ccb 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -314,6 +314,9 @@ namespace aio {
 		if (myState == TCP_SOCKET_STATE_CLOSING)
 		{
 			myMutex.Unlock();
+			// The socket is owned by the connect attempt, even if it wasn't started.
+			if (params.mySocket != mg::net::theInvalidSocket)
+				mg::net::SocketClose(params.mySocket);
 			return;
 		}
 		MG_BOX_ASSERT(myState == TCP_SOCKET_STATE_EMPTY);
-- 
2.43.0


From f3787c896eb5467a7a498ee15ad4f879547e03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:44 +0000
Subject: [PATCH 16/31] fix: the error of an asynchronous connect of a simple
 socket was lost

---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From 6138e849bc56d12ca4264632d2d93146878015da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:44 +0000
Subject: [PATCH 17/31] fix: sending only empty buffers broke a simple socket

---
 src/mg/sio/TCPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/sio/TCPSocket.cpp b/src/mg/sio/TCPSocket.cpp
index ec8f65f..b5c59dd 100644
--- a/src/mg/sio/TCPSocket.cpp
+++ b/src/mg/sio/TCPSocket.cpp
@@ -166,6 +166,8 @@ namespace sio {
 		mg::box::Error::Ptr& aOutErr)
 	{
 		MG_DEV_ASSERT(myState == TCP_SOCKET_STATE_CONNECTED);
+		// Nothing to send in the empty buffers.
+		myOutput.SkipEmptyPrefix(mySendOffset);
 		if (myOutput.IsEmpty())
 			return true;
 		int64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);
-- 
2.43.0


From 3b25911e197e02eba2a8fe64a68055211a22c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 18/31] fix: BufferStream::WriteCopy() ignored the reserved
 buffers behind the write position

---
 src/mg/net/Buffer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 08e7c2e..ba2baf2 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -198,16 +198,20 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
-			if (cap == aSize)
+			myREnd = myWPos;
+			myWSize -= cap;
+			// There might be more buffers reserved for writing.
+			myWPos = myWPos->myNext.GetPointer();
+			aData = (const uint8_t*)aData + cap;
+			aSize -= cap;
+			if (aSize == 0)
 			{
-				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
 				PrivCheck();
 				return;
 			}
-			aData = (const uint8_t*)aData + cap;
-			aSize -= cap;
+			if (myWPos != nullptr)
+				continue;
+			MG_DEV_ASSERT(myWSize == 0);
 			MG_DEV_ASSERT(myHead.IsSet());
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
-- 
2.43.0


From 998b2e7fca8aa8feda5605bd21cc139627c54a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 19/31] fix: OpenSSLPackError() recursed into its own static
 initialization

---
 src/mg/net/SSLOpenSSL.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mg/net/SSLOpenSSL.cpp b/src/mg/net/SSLOpenSSL.cpp
index c7c0b11..14f6574 100644
--- a/src/mg/net/SSLOpenSSL.cpp
+++ b/src/mg/net/SSLOpenSSL.cpp
@@ -210,18 +210,18 @@ namespace {
 		// report nothing. For instance, SSL_ERROR_SYSCALL is by default 'DH lib'.
 		static ERR_STRING_DATA errorReasons[] =
 		{
-			{OpenSSLPackError(SSL_ERROR_NONE), "ssl_error_none"},
-			{OpenSSLPackError(SSL_ERROR_SSL), "ssl_error_ssl"},
-			{OpenSSLPackError(SSL_ERROR_WANT_READ), "ssl_error_want_read"},
-			{OpenSSLPackError(SSL_ERROR_WANT_WRITE), "ssl_error_want_write"},
-			{OpenSSLPackError(SSL_ERROR_WANT_X509_LOOKUP), "ssl_error_want_x509_lookup"},
-			{OpenSSLPackError(SSL_ERROR_SYSCALL), "ssl_error_syscall"},
-			{OpenSSLPackError(SSL_ERROR_ZERO_RETURN), "ssl_error_zero_return"},
-			{OpenSSLPackError(SSL_ERROR_WANT_CONNECT), "ssl_error_want_connect"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ACCEPT), "ssl_error_want_accept"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ASYNC), "ssl_error_want_async"},
-			{OpenSSLPackError(SSL_ERROR_WANT_ASYNC_JOB), "ssl_error_want_async_job"},
-			{OpenSSLPackError(SSL_ERROR_WANT_CLIENT_HELLO_CB), "ssl_error_want_client_hello_cb"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_NONE), "ssl_error_none"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_SSL), "ssl_error_ssl"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_READ), "ssl_error_want_read"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_WRITE), "ssl_error_want_write"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_X509_LOOKUP), "ssl_error_want_x509_lookup"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_SYSCALL), "ssl_error_syscall"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_ZERO_RETURN), "ssl_error_zero_return"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_CONNECT), "ssl_error_want_connect"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_ACCEPT), "ssl_error_want_accept"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_ASYNC), "ssl_error_want_async"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_ASYNC_JOB), "ssl_error_want_async_job"},
+			{(uint32_t)ERR_PACK(id, 0, SSL_ERROR_WANT_CLIENT_HELLO_CB), "ssl_error_want_client_hello_cb"},
 			{0, nullptr}
 		};
 		if (ERR_reason_error_string(errorReasons[0].error) == nullptr)
-- 
2.43.0


From 5c1811f5783365daa5e53ea52a31ad72043376ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 20/31] fix: SSL context aborted on adding certificates with
 some trust levels

---
 src/mg/net/SSLContextOpenSSL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/SSLContextOpenSSL.cpp b/src/mg/net/SSLContextOpenSSL.cpp
index f480bad..acf45e7 100644
--- a/src/mg/net/SSLContextOpenSSL.cpp
+++ b/src/mg/net/SSLContextOpenSSL.cpp
@@ -143,6 +143,7 @@ namespace net {
 			ok = OpenSSLVerifyCert(aFile, yesRSA);
 			break;
 		case SSL_TRUST_UNSECURE:
+		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = OpenSSLVerifyCert(aFile, yesRSA);
 			break;
 		default:
@@ -208,6 +209,7 @@ namespace net {
 		case SSL_TRUST_RELAXED:
 			ok = OpenSSLVerifyCert(aCertFile, yesRSA);
 			break;
+		case SSL_TRUST_UNSECURE:
 		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = OpenSSLVerifyCert(aCertFile, yesRSA);
 			break;
@@ -265,6 +267,7 @@ namespace net {
 			ok = pubKeyType == EVP_PKEY_EC;
 			break;
 		case SSL_TRUST_RELAXED:
+		case SSL_TRUST_UNSECURE:
 		case SSL_TRUST_BYPASS_VERIFICATION:
 			ok = pubKeyType == EVP_PKEY_EC || pubKeyType == EVP_PKEY_RSA;
 			break;
-- 
2.43.0


From 8d159617ca30aa8d2f37a65a03a0c464759db788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 21/31] fix: SSLStream::Shutdown() aborted on an already closed
 stream

---
 src/mg/net/SSLStreamOpenSSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 84e6b21..8a31288 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -65,7 +65,8 @@ namespace net {
 			PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
 			return;
 		}
-		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
+		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING ||
+			myState == SSL_STREAM_OPENSSL_STATE_CLOSED)
 			return;
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
-- 
2.43.0


From b7d880bbe387c39de3d05e9f993c880e41783d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 22/31] fix: SSLStream::Shutdown() lost the data queued during
 the handshake

---
 src/mg/net/SSLStreamOpenSSL.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 8a31288..1518f92 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -71,6 +71,9 @@ namespace net {
 		MG_BOX_ASSERT(
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTING ||
 			myState == SSL_STREAM_OPENSSL_STATE_CONNECTED);
+		// The data queued during the handshake must go before the close-notify.
+		if (myState == SSL_STREAM_OPENSSL_STATE_CONNECTED && !PrivFlushAppInput())
+			return;
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
-- 
2.43.0


From 8b2bec33da7915581db03275bd85a4515430ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 23/31] fix: errors of other SSL streams of the thread could
 break a closing stream

---
 src/mg/net/SSLStreamOpenSSL.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/SSLStreamOpenSSL.cpp b/src/mg/net/SSLStreamOpenSSL.cpp
index 1518f92..2227491 100644
--- a/src/mg/net/SSLStreamOpenSSL.cpp
+++ b/src/mg/net/SSLStreamOpenSSL.cpp
@@ -74,6 +74,7 @@ namespace net {
 		// The data queued during the handshake must go before the close-notify.
 		if (myState == SSL_STREAM_OPENSSL_STATE_CONNECTED && !PrivFlushAppInput())
 			return;
+		OpenSSLPrepareToCall();
 		int rc = SSL_shutdown(mySSL);
 		if (rc == 0)
 		{
@@ -204,6 +205,7 @@ namespace net {
 		if (myState == SSL_STREAM_OPENSSL_STATE_CLOSING)
 		{
 			MG_BOX_ASSERT(myAppInput.IsEmpty());
+			OpenSSLPrepareToCall();
 			int rc = SSL_shutdown(mySSL);
 			if (rc == 1)
 				PrivSetState(SSL_STREAM_OPENSSL_STATE_CLOSED);
-- 
2.43.0


From 646da2bd559c1c95eac6836c244b03509e3f10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:02 +0000
Subject: [PATCH 24/31] fix: an unknown TLS alert from the peer aborted the
 process

OpenSSL has no text for most of the alert numbers. The null pointer went
into the error message formatting and crashed there.
---
 src/mg/net/SSLOpenSSL.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/SSLOpenSSL.cpp b/src/mg/net/SSLOpenSSL.cpp
index 14f6574..720e510 100644
--- a/src/mg/net/SSLOpenSSL.cpp
+++ b/src/mg/net/SSLOpenSSL.cpp
@@ -103,7 +103,9 @@ namespace {
 	OpenSSLErrorToString(
 		uint32_t aCode)
 	{
-		return ERR_reason_error_string(aCode);
+		const char* res = ERR_reason_error_string(aCode);
+		// Not all the codes have a text. For example, the peer can send any alert number.
+		return res != nullptr ? res : "unknown_ssl_error";
 	}
 
 	const char*
-- 
2.43.0


From 0348cd1794deaec39f70cc8f2563e55012bae4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:02 +0000
Subject: [PATCH 25/31] fix: SSL socket data coming together with the handshake
 end

The data which came in the same read as the end of the handshake was shown
via OnRecv() before OnConnect() and without a receive being requested. When
the read also had the closure notification of the peer, the connection was
never reported at all. And a spare receive buffer left by the handshake
could abort the socket on an assertion when nothing was to be received.
---
 src/mg/aio/SSLSocket.cpp | 54 +++++++++++++++++++++++++++-------------
 src/mg/aio/SSLSocket.h   |  7 ++++++
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..e2ed08a 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -19,6 +19,9 @@ namespace aio {
 		IOCore& aCore)
 		: TCPSocketIFace(aCore)
 		, mySSL(nullptr)
+		, mySentSize(0)
+		, myNewRecvSize(0)
+		, myWasSSLConnected(false)
 	{
 	}
 
@@ -28,7 +31,10 @@ namespace aio {
 	{
 		ProtOpen();
 		myEncSendQueue.Clear();
+		myEncRecvQueue.Clear();
 		mySentSize = 0;
+		myNewRecvSize = 0;
+		myWasSSLConnected = false;
 		delete mySSL;
 		mySSL = new mg::net::SSLStream(aParams.mySSL);
 		if (aParams.myDoEncrypt)
@@ -109,7 +115,7 @@ namespace aio {
 			ProtCloseError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "handshake"));
 			return false;
 		}
-		return mySSL->IsConnected();
+		return myWasSSLConnected || mySSL->IsConnected();
 	}
 
 	void
@@ -234,11 +240,16 @@ namespace aio {
 	{
 		if (!PrivRecvEventConsume())
 			return;
+		PrivRecvDeliver();
+		// Do not receive more until the already decrypted data is delivered. It will be,
+		// as soon as the handshake end is reported and the user wants the data.
+		if (myNewRecvSize > 0)
+			return;
 		if (myRecvSize == 0)
 		{
 			if (ProtWasHandshakeDone())
 			{
-				MG_BOX_ASSERT(myEncRecvQueue.IsEmpty());
+				MG_BOX_ASSERT(myEncRecvQueue.GetReadSize() == 0);
 				return;
 			}
 			myEncRecvQueue.EnsureWriteSize(mg::net::theBufferCopySize);
@@ -265,11 +276,13 @@ namespace aio {
 			return;
 		}
 		myEncRecvQueue.PropagateWritePos(aByteCount);
-		uint64_t recvSizeWas = myRecvSize;
-		myRecvSize = 0;
 		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
+		// The end of the handshake, some data, and the closure notification can all come
+		// together. The connection must still be reported with the data then.
+		if (mySSL->Update() && mySSL->IsConnected())
+			myWasSSLConnected = true;
 		mg::net::Buffer::Ptr head;
-		mySSL->PopAppOutput(head);
+		myNewRecvSize += mySSL->PopAppOutput(head);
 		myRecvQueue.WriteRef(std::move(head));
 		if (mySSL->HasError())
 		{
@@ -279,18 +292,25 @@ namespace aio {
 		// If this was a part of the handshake, then need to handle it on a next wakeup.
 		if (!ProtWasHandshakeDone())
 			myTask.Reschedule();
-		if (!myRecvQueue.IsEmpty())
-		{
-			mg::net::BufferReadStream stream(myRecvQueue);
-			ProtOnRecv(stream);
-		}
-		else
-		{
-			// Keep reading until get data. User has requested it, so need to be reading
-			// until the data comes. Reading not returning any data can happen because
-			// some data is SSL-internal stuff, user shouldn't care about that.
-			myRecvSize = recvSizeWas;
-		}
+		PrivRecvDeliver();
+	}
+
+	void
+	SSLSocket::PrivRecvDeliver()
+	{
+		// Keep reading until get data. User has requested it, so need to be reading until
+		// the data comes. Reading not returning any data can happen because some data is
+		// SSL-internal stuff, user shouldn't care about that.
+		if (myNewRecvSize == 0)
+			return;
+		// The data could arrive together with the end of the handshake. It would look
+		// strange if OnRecv() was called before OnConnect(), or without being requested.
+		if (myRecvSize == 0 || !ProtWasHandshakeDone())
+			return;
+		myNewRecvSize = 0;
+		myRecvSize = 0;
+		mg::net::BufferReadStream stream(myRecvQueue);
+		ProtOnRecv(stream);
 	}
 
 	void
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..c60faa5 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -61,6 +61,7 @@ namespace aio {
 			mg::box::Error* aError);
 		void PrivRecvCommit(
 			uint32_t aByteCount);
+		void PrivRecvDeliver();
 		bool PrivRecvEventConsume();
 
 		// SSL socket, on the contrary with TCP-one, has 2 pairs of queues, not one.
@@ -107,6 +108,12 @@ namespace aio {
 		// flush inside Encrypt() method. It would be a bad incident to start invoking
 		// user callbacks right in the user-called methods.
 		uint64_t mySentSize;
+		// Number of bytes decrypted, but not yet shown to the socket owner. They can't be
+		// until the handshake is over and the owner asks for the data.
+		uint64_t myNewRecvSize;
+		// True if the SSL handshake was ever finished, even if the stream is closed by the
+		// peer now.
+		bool myWasSSLConnected;
 	};
 
 }
-- 
2.43.0


From 67f57e6b1dc9bd4e9f3f1e559d22946cdcd8e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 26/31] fix: io_uring server leaked a socket accepted during
 its close

---
 src/mg/aio/IOTask_iouring.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mg/aio/IOTask_iouring.cpp b/src/mg/aio/IOTask_iouring.cpp
index 55d2b62..1c2ff09 100644
--- a/src/mg/aio/IOTask_iouring.cpp
+++ b/src/mg/aio/IOTask_iouring.cpp
@@ -208,6 +208,19 @@ namespace aio {
 		aOutArgs.myEvents = myReadyEvents.PopAll();
 		myOperationCount -= myReadyEventCount;
 		myReadyEventCount = 0;
+		if (!myIsClosed)
+			return;
+		// An accept could complete successfully before it was canceled. The user of a
+		// closed task isn't allowed to process its events anymore, so nobody would ever
+		// know about the accepted socket. It has to be closed here.
+		for (IOEvent* event = aOutArgs.myEvents; event != nullptr; event = event->myNext)
+		{
+			if (event->myOpcode != MG_IO_URING_OP_ACCEPT)
+				continue;
+			event->Unlock();
+			if (!event->IsError())
+				mg::net::SocketClose(event->PopBytes());
+		}
 	}
 
 	void
-- 
2.43.0


From ce1491493a4052bdfc445e784aaf786560f402ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 27/31] fix: io_uring core aborted when deleted with not
 submitted events

---
 src/mg/aio/IOCore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index 6167a4d..aa4de84 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -56,9 +56,6 @@ namespace aio {
 	{
 		MG_BOX_ASSERT(WaitEmpty() == 0);
 		Stop();
-#if MG_IOCORE_USE_IOURING
-		MG_BOX_ASSERT(myToSubmitEvents.IsEmpty());
-#endif
 		MG_BOX_ASSERT(myDescriptorCount.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(myPendingQueue.IsEmpty());
 		MG_BOX_ASSERT(myFrontQueue.IsEmpty());
-- 
2.43.0


From c3a0e4c39f339d2ee4b0de33805eafb45427ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:48 +0000
Subject: [PATCH 28/31] The batch sizes of the IO core can be defined at build
 time

---
 src/mg/aio/IOCore.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mg/aio/IOCore.h b/src/mg/aio/IOCore.h
index 433a09d..202c6bf 100644
--- a/src/mg/aio/IOCore.h
+++ b/src/mg/aio/IOCore.h
@@ -12,11 +12,23 @@
 #endif
 
 #define MG_IOCORE_DEFAULT_THREAD_COUNT UINT32_MAX
+// The batches can be overridden at build time. For example, to see the work being split
+// into many batches without having thousands of tasks.
+#ifndef MG_IOCORE_IOCP_BATCH
 #define MG_IOCORE_IOCP_BATCH 256
+#endif
+#ifndef MG_IOCORE_IOURING_BATCH
 #define MG_IOCORE_IOURING_BATCH 1024
+#endif
+#ifndef MG_IOCORE_EPOLL_BATCH
 #define MG_IOCORE_EPOLL_BATCH 1024
+#endif
+#ifndef MG_IOCORE_KQUEUE_BATCH
 #define MG_IOCORE_KQUEUE_BATCH 1024
+#endif
+#ifndef MG_IOCORE_READY_BATCH
 #define MG_IOCORE_READY_BATCH 4096
+#endif
 
 namespace mg {
 namespace aio {
-- 
2.43.0


From 44e7f915b9a2151d38ad456fd6a16e9142a52847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:48 +0000
Subject: [PATCH 29/31] fix: io_uring core slept while completions were left in
 the ring

When the ring had more completions than fit into one batch, and none of those
in the batch made a task ready, the scheduler went to sleep on the eventfd. Its
signal was already consumed, so the rest was not noticed until something else
happened. For example, a close of 1024 sockets at once.
---
 src/mg/aio/IOCore_iouring.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 9b33164..8aab626 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -458,6 +458,9 @@ namespace aio {
 		if (
 			// Ready-queue isn't empty? - go help to process it.
 			myReadyQueue.Count() > 0 ||
+			// Kernel events might be not fully fetched? - re-enter the scheduler to fetch
+			// the rest. Their eventfd signal is already consumed, it can't be waited for.
+			evCount == MG_IOCORE_IOURING_BATCH ||
 			// Front-queue isn't fully dispatched? - re-enter the scheduler to continue
 			// the dispatching.
 			!myPendingQueue.IsEmpty() ||
-- 
2.43.0


From 12da2b819e1ee9616205ec06d63d0b03ecae1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:48 +0000
Subject: [PATCH 30/31] fix: concurrent IOCore::Start() calls raced for the
 array of workers

The array was reserved without the lock which protects it.
---
 src/mg/aio/IOCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/aio/IOCore.cpp b/src/mg/aio/IOCore.cpp
index aa4de84..99ad716 100644
--- a/src/mg/aio/IOCore.cpp
+++ b/src/mg/aio/IOCore.cpp
@@ -71,13 +71,13 @@ namespace aio {
 		if (aThreadCount == MG_IOCORE_DEFAULT_THREAD_COUNT)
 			aThreadCount = mg::box::SysGetCPUCoreCount() * 2;
 		MG_BOX_ASSERT(aThreadCount > 0 && aThreadCount < 256);
-		myWorkers.reserve(aThreadCount);
 
 		mg::box::MutexLock lock(myMutex);
 		if (myState.LoadRelaxed() != IOCORE_STATE_STOPPED)
 			return;
 		myState.StoreRelaxed(IOCORE_STATE_RUNNING);
 		mySchedBatchSize = myExecBatchSize * aThreadCount;
+		myWorkers.reserve(aThreadCount);
 		for (uint32_t i = 0; i < aThreadCount; ++i)
 			myWorkers.push_back(new IOCoreWorker(*this));
 	}
-- 
2.43.0


From 3beae6d834437fee2392230e4a56f97c1bc955ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:18 +0000
Subject: [PATCH 31/31] fix: calls of coroutines which don't suspend grew the
 stack without a limit

The final awaiter resumed the caller recursively, from inside of its own resume.
A loop of co_await-ed calls overflowed the stack. Transfer the control
symmetrically instead.
---
 src/mg/box/Coro.cpp | 6 +++---
 src/mg/box/Coro.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mg/box/Coro.cpp b/src/mg/box/Coro.cpp
index b2ab6a2..34ff423 100644
--- a/src/mg/box/Coro.cpp
+++ b/src/mg/box/Coro.cpp
@@ -59,20 +59,20 @@ namespace box {
 
 	//////////////////////////////////////////////////////////////////////////////////////
 
-	void
+	std::coroutine_handle<>
 	CoroOpFinal::await_suspend(
 		CoroHandle aThisCoro) noexcept
 	{
 		CoroPromise& thisPromise = aThisCoro.promise();
 		CoroHandle prev = thisPromise.myPrev;
 		if (!prev)
-			return;
+			return std::noop_coroutine();
 		thisPromise.myPrev = {};
 
 		CoroPromise& prevPromise = prev.promise();
 		prevPromise.myNext = {};
 		prevPromise.myFirst.promise().myLast = prev;
-		prev.resume();
+		return prev;
 	}
 
 	//////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/mg/box/Coro.h b/src/mg/box/Coro.h
index d7664ff..29bd513 100644
--- a/src/mg/box/Coro.h
+++ b/src/mg/box/Coro.h
@@ -62,7 +62,7 @@ namespace box {
 		, public CoroOpIsNotReady
 		, public CoroOpIsEmptyReturn
 	{
-		void await_suspend(
+		std::coroutine_handle<> await_suspend(
 			CoroHandle aThisCoro) noexcept;
 	};
 
-- 
2.43.0

