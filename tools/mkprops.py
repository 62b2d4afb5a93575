#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
S = 'src/mg/sch/'; B = 'src/mg/box/'; A = 'src/mg/aio/'; N = 'src/mg/net/'; I = 'src/mg/sio/'
SCHED = [S+'TaskScheduler.cpp', S+'TaskScheduler.h', S+'Task.cpp', S+'Task.h']
AIO = [A+'IOCore.cpp', A+'IOCore.h', A+'IOCore_epoll.cpp', A+'IOCore_iouring.cpp', A+'IOTask.cpp', A+'IOTask.h', A+'IOTask_epoll.cpp', A+'IOTask_iouring.cpp']
TCP = [A+'TCPSocketIFace.cpp', A+'TCPSocketIFace.h', A+'TCPSocketCtl.cpp', A+'TCPSocketCtl.h', A+'TCPSocket.cpp', A+'TCPSocketSubscription.cpp']

prop('C01', 'Every posted task is executed exactly once per post',
 'Every task given to the task scheduler is executed, by some worker, exactly once for every post: no post is ever lost, executed twice or left waiting while workers sleep, whichever threads post and whatever the number of workers and the queue size. Re-posting a task from its own callback counts as a new post. Whatever the posting thread wrote before the post is visible to the callback.',
 ['schedules', 'configurations', 'histories'],
 'All interleavings of any number of posting threads and worker threads, all worker counts and sub-queue sizes, all mixes of immediate and delayed posts.',
 'The tests stress a few thread counts on the host scheduler; the sleep/wake hand-off between the scheduler role and idle workers loses a task only in a narrow interleaving.',
 SCHED + [B+'MultiConsumerQueueBase.cpp', B+'MultiProducerQueueIntrusive.h', B+'Signal.cpp'],
 [('front queue -> waiting/ready queues hand-off by whichever worker holds the scheduling role', S+'TaskScheduler.cpp'), ('worker wake-up signals', S+'TaskScheduler.cpp')],
 ['task callback executions against posts'])
prop('C02', 'A task is owned by its callback: never run concurrently, free to go',
 'While a callback of a task runs, no other worker runs that task, and from the start of the callback the scheduler does not touch the task again unless it is posted again: the callback may re-post it (including to another scheduler), change its callback and timing, or delete it. Consecutive executions of one task are ordered: each sees all memory effects of the one before.',
 ['schedules', 'histories'],
 'All interleavings of workers, posters and wakers with callbacks that delete, re-post, hand over or re-configure their own task.',
 'A stale access to a deleted or re-posted task is invisible to a test unless the freed memory is reused at that instant.',
 SCHED, [('the task leaves every scheduler structure before its callback is called', S+'Task.cpp'), ('worker loop', S+'TaskScheduler.cpp')],
 ['callback entry and exit', 'memory accesses to freed task objects'])
prop('C03', 'Tasks run not before their deadline and not indefinitely after it',
 'A task posted with a delay or a deadline and neither woken nor signalled is not executed before that time, and is executed within a bounded time after it once workers are free, however deadlines are ordered. In its callback the task reports itself expired only if its deadline has been reached, and always if it was neither woken nor signalled; a task waiting without any deadline is executed only when woken or signalled.',
 ['schedules', 'inputs', 'histories'],
 'All sets of concurrent deadlines and delays (zero, equal, huge, infinite), all interleavings with wake-ups and signals and all forward movements of the clock.',
 'Tests check single delays against the wall clock with wide margins; the waiting-queue ordering and the sleep length of an idle scheduler depend on interleaving and clock.',
 SCHED + [B+'BinaryHeap.h', B+'Time.h'], [('waiting queue ordered by deadline', S+'TaskScheduler.cpp'), ('deadline bookkeeping', S+'Task.h')],
 ['virtual clock at callback entry'])
prop('C04', 'A wake-up of a posted task is never lost',
 'A wake-up given to a posted task from any thread makes the task execute promptly regardless of its deadline: there is always an execution that begins after the wake-up was given or an execution of the pending post not yet begun when it was given. A wake-up adds no execution beyond those of the posts, and when it arrives while the callback runs it takes effect at the next post; only a signal pending at that moment subsumes it.',
 ['schedules', 'histories'],
 'All interleavings of wake-ups by several threads with the task being queued, put to wait, popped, executed and re-posted.',
 'The race between the wake-up and the scheduler putting the task into its waiting queue is a few instructions wide.',
 SCHED, [('atomic task status transitions PENDING/WAITING/READY', S+'Task.cpp')],
 ['task callback executions against wake-ups'])
prop('C05', 'A signal sent to a task is never lost and is consumed exactly once',
 'A signal sent to a task is received by exactly one later receive (several sends before it collapse into one), makes a posted task execute promptly regardless of its deadline, and stays pending across executions until received. Memory written before the send is visible after the receive. Once the receive has returned success the task may be deleted at once: the sender never touches it after its signal can be observed.',
 ['schedules', 'histories'],
 'All interleavings of signalling threads with the task being queued, waiting, executing, receiving the signal and being deleted.',
 'Lost signals and touch-after-delete need the sender to be preempted between two particular instructions.',
 SCHED, [('SIGNALED task status set by exchange, consumed by compare-exchange', S+'Task.cpp')],
 ['signals sent against receives', 'accesses to deleted tasks'])
prop('C06', 'Same-thread ready tasks start in posting order on one worker',
 'With one worker, tasks that are ready when posted (no deadline, not woken) are started in the order in which they were posted, for tasks posted by one thread and for posts by different threads ordered by synchronisation. This holds across internal batch and sub-queue boundaries.',
 ['schedules', 'configurations'],
 'All interleavings of posters and the worker, all sub-queue sizes and task counts.',
 'A test sees order only in the batches that its timing happens to form.',
 SCHED + [B+'MultiConsumerQueueBase.cpp', B+'MultiProducerQueueIntrusive.h'], [('FIFO front queue, FIFO ready queue', S+'TaskScheduler.cpp')],
 ['order of callback starts'])
prop('C07', 'Scheduler stop, start and wait-empty are complete and terminate',
 'Waiting until the scheduler is empty reports success only when all tasks posted before it, and all tasks those have posted, have finished executing (a task put to wait without any deadline, for a wake-up only, does not count), and always returns once that is so. Stop returns, from any thread and in any state, once the callbacks being executed have finished, with no worker running; tasks not yet executed stay posted and run after the next start, so stop and start can be repeated without loss, deadlock or leak.',
 ['schedules', 'histories', 'configurations'],
 'All interleavings of stop, start, wait and post from several threads with running, ready and waiting tasks.',
 'Shutdown races happen once per process in a test; a missed wake-up of an idle worker at stop appears only in rare schedules.',
 SCHED + [B+'Thread.cpp', B+'ConditionVariable.cpp'], [('task counter with condition variable', S+'TaskScheduler.cpp'), ('worker stop protocol', S+'TaskScheduler.cpp')],
 ['return of stop / wait-empty against finished callbacks', 'quiescence at exit'])
prop('C08', 'Coroutine tasks resume exactly once per await and never leak or dangle',
 'A coroutine task resumes exactly once for each suspension, on a worker, respecting the deadline, wake-up or signal it awaits; a nested coroutine resumes its parent with its result when it finishes. Terminal operations (delete the task, run a new callback, send a signal to the owner) take effect with the coroutine no longer using the task or its own frame afterwards, and every coroutine frame is freed exactly once. Calls of nested coroutines which end without suspending leave nothing on the stack of the thread, so any number of them can be made in a row.',
 ['schedules', 'programs'],
 'All interleavings of wakers and workers with coroutine bodies made of yields, signal waits, nested calls and each terminal operation.',
 'A frame or task touched after another worker has freed or resumed it is invisible to the tests unless that worker wins a tiny window.',
 SCHED + [B+'Coro.cpp', B+'Coro.h'], [('awaiters deferring the hand-off until the frame is suspended', S+'Task.cpp'), ('coroutine reference and continuation chain', B+'Coro.cpp')],
 ['coroutine steps', 'frame allocation and free'])
prop('C09', 'The multi-consumer queue hands every item to exactly one consumer, in order',
 'Each item pushed to the single-producer multi-consumer queue is popped by exactly one consumer; one consumer receives items in push order, and a pop that returns nothing happened at a moment when every item pushed before that pop began was already taken. Memory written before the push is visible after the pop, and segment memory is neither freed while a consumer uses it nor leaked, as consumers attach, pause and detach.',
 ['schedules', 'configurations'],
 'All interleavings of one producer and several consumers, all sub-queue sizes including one, all batch sizes, consumers attaching and detaching at any time.',
 'Segment switching and recycling races need a consumer stalled inside a pop while others exhaust the segment.',
 [B+'MultiConsumerQueueBase.cpp', B+'MultiConsumerQueueBase.h', B+'MultiConsumerQueue.h'],
 [('segment list with per-segment read/write indexes and consumer references', B+'MultiConsumerQueueBase.cpp')],
 ['items returned by pop'])
prop('C10', 'The multi-producer queue loses, duplicates and reorders nothing',
 'Items pushed to the multi-producer single-consumer intrusive queue from any threads are popped exactly once, in the order of the pushes wherever that order is defined, also when pushed as pre-linked lists or to the front. A push reports that the queue was empty exactly for the pushes that made it non-empty, so that at least one producer wakes the consumer, and memory written before a push is visible to the consumer.',
 ['schedules'],
 'All interleavings of several producers pushing single items, lists and reversed lists with a consumer popping all.',
 'Ordering and the was-empty hint break only if another producer intervenes between load and compare-exchange.',
 [B+'MultiProducerQueueIntrusive.h', B+'ForwardList.h'], [('lock-free LIFO with reversal at pop', B+'MultiProducerQueueIntrusive.h')],
 ['popped items and push results'])
prop('C11', 'A signal object is never lost and may be destroyed after a receive',
 'Every send on a signal object is followed by a successful receive or leaves the signal set: a blocked receiver always wakes, a receive succeeds at most once per send, and a timed receive fails only after its timeout or a spurious wake-up. Memory written before the send is visible after the receive, and once a blocking receive has returned the receiver may destroy the object although the sender has not yet returned.',
 ['schedules', 'fault_sequences'],
 'All interleavings of senders and receivers with infinite, timed and polling receives, spurious wake-ups and clock movement.',
 'Sender preempted between making the signal visible and unlocking; spurious wake-ups cannot be provoked by a test.',
 [B+'Signal.cpp', B+'Signal.h', B+'ConditionVariable.cpp'], [('atomic state plus mutex and condition variable', B+'Signal.cpp')],
 ['receive results', 'accesses after destruction'])
prop('C12', 'The interruptible mutex excludes, interrupts and never strands a waiter',
 'At most one thread holds the interruptible mutex at any time and everything a holder wrote is visible to the next. A waiter that must take the mutex gets it once released, after its interrupt has been delivered to the current owner; every blocked thread eventually acquires the mutex when owners keep releasing it, and each interruption is delivered only to a thread that is the owner at that time.',
 ['schedules'],
 'All interleavings of threads that try, block, get interrupted, sleep interruptibly and release.',
 'Lost hand-offs need a waiter registering between the owner deciding that there are no waiters and unlocking.',
 [B+'InterruptibleMutex.cpp', B+'InterruptibleMutex.h'], [('atomic state with a taken and a waiters flag', B+'InterruptibleMutex.cpp')],
 ['critical section occupancy', 'progress of blocked threads'])
prop('C13', 'Mutex and condition variable give exclusion, recursion and timely wake-up',
 'The mutex is held by at most one thread, recursively by its owner until unlocked as many times as locked; ownership queries are true exactly for the owner. A waiter on the condition variable atomically releases and re-acquires its lock and wakes on a notification; a timed wait reports a timeout only after its full time has elapsed, and wakes no later than bounded after it.',
 ['schedules', 'fault_sequences'],
 'All interleavings of locking, try-locking, waiting and notifying threads, spurious wake-ups, any timeout.',
 'Tests run a handful of lockers; recursion combined with waiting and spurious wake-ups are not sampled.',
 [B+'Mutex.cpp', B+'Mutex.h', B+'ConditionVariable.cpp', B+'ConditionVariable.h'], [('owner/counter around the native mutex', B+'Mutex.h'), ('native condition variable with deadline', B+'ConditionVariable.cpp')],
 ['lock state, wait results'])
prop('C14', 'A thread runs once, stops when told and is joined before destruction',
 'A started thread runs its body exactly once, never before start; a stop request is seen by the body, a blocking stop returns only after the body has finished and from any number of threads, and a thread never started can be stopped and destroyed without blocking. Whatever the body wrote is visible after the blocking stop returns.',
 ['schedules', 'histories'],
 'All interleavings of start, stop, blocking stop from several threads and destruction with the body.',
 'Start/stop races resolve one way on an idle host.',
 [B+'Thread.cpp', B+'Thread.h', B+'ThreadFunc.h'], [('state machine under a mutex with condition variable', B+'Thread.cpp')],
 ['body executions', 'return of blocking stop'])
prop('C15', 'The thread-local pool never hands out an object twice nor loses one',
 'An object taken from the thread-local pool is exclusively owned until it is returned, whichever threads take and return it; contents written before returning an object in one thread never race with its next user in another. Objects held by threads that exit become available to others or are freed, none is leaked or freed twice, and the number of allocated objects stays bounded by the peak use plus the per-thread caches.',
 ['schedules', 'histories'],
 'All interleavings of threads taking in one thread and returning in another, batches migrating through the global pool, threads exiting at any time.',
 'Batch migration between threads only happens at certain counts and its races are narrow.',
 [B+'ThreadLocalPool.h'], [('per-thread batches exchanged through a mutex-guarded global list', B+'ThreadLocalPool.h')],
 ['object identity and ownership', 'object counts'])
prop('C16', 'A shared object is destroyed exactly once, after its last reference',
 'An object held by shared references is destroyed exactly once, only after the last reference is dropped, by whichever thread drops it, also when references are copied, moved, swapped and dropped concurrently. Everything that any holder wrote before dropping its reference is visible to the destruction. A comparison of references tells whether they hold the same object.',
 ['schedules'],
 'All interleavings of threads copying, moving and dropping references to the same object.',
 'An ordering mistake in the counter manifests only on particular interleavings and weak orderings.',
 [B+'SharedPtr.h', B+'RefCount.h', B+'Atomic.h'], [('atomic reference counter with release decrement', B+'RefCount.h')],
 ['destruction events', 'accesses after destruction'])
prop('C17', 'I/O tasks wake for posts, deadlines, events and closes; never concurrently',
 'A posted I/O task is executed after every wake-up, when its deadline passes (not before, if nothing else happened), when its descriptor reports an event and when it is closed; no such reason is ever lost. It is never executed by two workers at once, executions are ordered in memory, and it is not touched after its close has been reported, so that it can be deleted or reused.',
 ['schedules', 'fault_sequences', 'histories'],
 'All interleavings of workers, posters, wakers and closers, kernel events at any instant, both the readiness-based and the completion-based backend.',
 'The three-way race of kernel event, wake-up and deadline with the task going back to sleep is not controllable in a test.',
 AIO, [('atomic task status with front queue', A+'IOTask.cpp'), ('kernel event registration', A+'IOCore_epoll.cpp')],
 ['I/O task callback executions'])
prop('C18', 'The I/O core stops only when drained and restarts cleanly',
 'Stopping the I/O core terminates all its workers without waiting for its tasks, which are kept with their events and proceed after the next start; waiting for it to be empty returns exactly when no task remains. A descriptor given to the core is closed exactly once - not before its task was told to close - and never used after it is closed.',
 ['schedules', 'fault_sequences', 'histories'],
 'All interleavings of start, stop, wait, post and close from several threads, with descriptors in any state, both backends.',
 'Each test starts and stops the core once in one order; descriptor reuse after a stale operation needs another open in a narrow window.',
 AIO, [('scheduling role passed among workers through an interruptible mutex', A+'IOCore.cpp'), ('task counter and state', A+'IOCore.h')],
 ['worker threads alive', 'descriptor table of the simulated kernel'])
prop('C19', 'TCP bytes arrive complete, in order and unmodified, unless it reports failure',
 'The bytes an asynchronous TCP socket delivers are always a prefix of what the peer sent, in order, without loss, duplication or corruption, and what it sends reaches the peer in the order of the sends, whichever threads send and receive and however buffers are chained, shared or sliced. If neither side closes or fails, everything sent is eventually delivered, with receive callbacks only as asked for.',
 ['schedules', 'inputs', 'fault_sequences'],
 'All interleavings, all chunkings by the network, short writes, full send windows and stalls, all buffer layouts; both backends.',
 'Loopback rarely short-writes or fragments; tests use one buffer layout and rely on the host schedule.',
 TCP + AIO + [N+'Buffer.cpp', N+'Buffer.h', N+'Socket_Unix.cpp', B+'IOVec.cpp'], [('send/recv loops over buffer lists', A+'TCPSocket.cpp'), ('double-buffered control messages', A+'TCPSocketCtl.cpp')],
 ['payload bytes at both ends'])
prop('C20', 'Socket callbacks follow their protocol: connect first, close last and once',
 'For every asynchronous TCP socket that is opened or attached and posted, callbacks never overlap; connected is reported at most once and before any data event, closed is reported exactly once, is the last callback of that life, and comes even if the socket fails, is closed at any time or never connects. A connect, a send or a receive which fails while the owner is not closing the socket is reported by its error callback before the close. A receive that is requested in any of the callbacks or by another thread is started, and socket options are applied as asked. After the closed callback the socket can be deleted or reused for a new connection, which starts from a clean state.',
 ['schedules', 'fault_sequences', 'histories'],
 'All interleavings of open, connect, send, receive, shutdown, wake-up, deadline and close from any thread with network events and errors; both backends.',
 'Tests exercise a few orders; a second close callback or one that is missed needs error, user close and event to coincide.',
 TCP + AIO, [('front control messages drained by the worker', A+'TCPSocketIFace.cpp')],
 ['subscription callbacks'])
prop('C21', 'Connecting succeeds or reports an error in bounded time',
 'An asynchronous connect, started directly, with a delay, through a host name or from an already running task, ends in exactly one outcome: a connected socket of the asked address family at a listening endpoint, not before the asked delay has passed, or an error followed by the closed event when the name does not resolve, the address is refused or unreachable, the attempt of the kernel times out, a system call fails or the socket is closed meanwhile. The outcome comes within a bounded time of the event which decides it, a failure is never taken for success, and the descriptor of an abandoned attempt is closed.',
 ['schedules', 'fault_sequences', 'inputs'],
 'All outcomes and delays of name resolution, descriptor creation, connection attempts and timeouts in all interleavings; both backends.',
 'Loopback connects immediately; delayed refusal, lost handshakes or failing descriptor creation are not produced by tests.',
 TCP + [N+'DomainToIP.cpp', A+'IOTask_epoll.cpp', A+'IOTask_iouring.cpp'], [('connect state machine with timeout by task deadline', A+'TCPSocketCtl.cpp')],
 ['connect outcome callbacks', 'virtual clock', 'descriptor table'])
prop('C22', 'Close and shutdown work at any moment and lose nothing they promise',
 'A close posted at any time from any thread always ends in the closed event without crash, hang or leak of descriptor or memory. A shutdown is honoured no matter when it is requested relative to connecting, attaching and sending: the peer then receives nothing but the bytes sent before it followed by the end of stream. The peer\'s own end of stream or reset closes the socket.',
 ['schedules', 'fault_sequences', 'histories'],
 'All interleavings of close and shutdown calls with every other call and with peer and network events; both backends.',
 'Each ordering is a separate test and only a few exist; descriptor leaks are not observed by tests at all.',
 TCP + AIO, [('shutdown and close bits in the control messages', A+'TCPSocketCtl.cpp')],
 ['end-of-stream at peer', 'descriptor table', 'allocation balance'])
prop('C23', 'SSL sockets deliver exact plaintext over any network and fail closed',
 'Two endpoints connected through SSL sockets receive exactly the bytes the other sent, in order, over any fragmentation, delay and concurrency, with connect reported only after the handshake is done and before any data, and receive callbacks only as asked for. Bytes which are to be sent encrypted never go over the network in plain. If the cipher stream is corrupted or the handshake fails, the socket closes with an error; if the stream is truncated, it closes; it never delivers bytes that the peer did not send, and the process survives anything a peer sends.',
 ['schedules', 'inputs', 'fault_sequences'],
 'All fragmentations, corruptions and truncations of the byte stream in all interleavings of both endpoints, protocol versions and ciphers offered; encryption enabled at start or later.',
 'Tests run on intact loopback streams where records arrive whole.',
 [A+'SSLSocket.cpp', A+'SSLSocket.h', N+'SSLStreamOpenSSL.cpp', N+'SSLOpenSSL.cpp', N+'SSLBioMem.cpp', N+'SSLContextOpenSSL.cpp', A+'TCPSocketIFace.cpp'], [('TLS engine driven through memory buffers from socket events', A+'SSLSocket.cpp')],
 ['plaintext at both ends', 'callbacks'])
prop('C24', 'The TCP server delivers every accepted connection once and closes cleanly',
 'Every connection accepted by the listening server is reported to its subscriber exactly once, with a usable socket and the peer\'s address, and a client that connects while the server listens is eventually accepted, also after transient accept errors. A close from any thread (also repeated) ends in exactly one closed callback, after which no accept is reported and no descriptor is leaked.',
 ['schedules', 'fault_sequences', 'histories'],
 'All interleavings of connects, accept errors, aborts by clients and close from any threads; both backends.',
 'Transient accept failures and connections arriving while closing cannot be produced by the tests.',
 [A+'TCPServer.cpp', A+'TCPServer.h'] + AIO + [N+'Socket_Unix.cpp'], [('accept loop with error classification', A+'TCPServer.cpp')],
 ['accept and close callbacks', 'descriptor table'])
prop('C25', 'Every name resolution ends in exactly one answer or a clean cancel',
 'Each asynchronous name resolution calls back exactly once, with all the addresses of its own name or with the reason why there are none: the failure of the resolver, a timeout (only when its time limit has passed, and always when it passed long before its turn) or a cancel (only if it was cancelled). This holds when the cancel, the timeout and the completion race and when the request handle is dropped early; nobody waits for a resolution except who asked to block, concurrent requests do not affect each other, and nothing leaks.',
 ['schedules', 'fault_sequences'],
 'All interleavings of requests, timeouts, cancels and completions with any resolver latency and failure.',
 'Resolver latency and the cancel/complete race are not controllable in tests.',
 [N+'DomainToIP.cpp', N+'DomainToIP.h'], [('request states exchanged between worker and cancelling thread', N+'DomainToIP.cpp')],
 ['resolution callbacks'])
prop('C26', 'Simple I/O sockets move bytes exactly and report every outcome',
 'The polling TCP client socket and server move bytes completely and in order with any chunking, short writes and would-block results, and keep what was not yet sent for later updates. A connect ends connected or failed, errors and end of stream are reported through the documented results, and after close the object is reusable and no descriptor stays open.',
 ['schedules', 'fault_sequences', 'inputs'],
 'All sequences of update, send, receive, connect and close against any network chunking, delay, refusal, reset and system-call failure.',
 'Loopback tests see complete writes and immediate connects.',
 [I+'TCPSocket.cpp', I+'TCPSocket.h', I+'Socket.cpp', I+'Socket_Unix.cpp', I+'TCPServer.cpp', N+'Buffer.cpp'], [('update loop over input and output buffer lists', I+'TCPSocket.cpp')],
 ['payload at both ends', 'descriptor table'])
prop('C27', 'The SSL stream engine is exact for every chunking and fails closed',
 'Two SSL stream engines connected by any transport that delivers the produced bytes in any pieces complete the handshake and deliver exactly the application bytes given, in order, including data queued before or during the handshake and up to a shutdown. Corrupted, truncated or foreign input turns into a reported error: no wrong byte is ever output, and no call hangs, crashes or leaks.',
 ['inputs', 'fault_sequences', 'programs'],
 'All piecewise deliveries between the two engines, all corruption points, all orders of the engine calls that the interface permits, all protocol versions.',
 'Tests pump whole buffers between the engines.',
 [N+'SSLStreamOpenSSL.cpp', N+'SSLOpenSSL.cpp', N+'SSLBioMem.cpp', N+'SSLContextOpenSSL.cpp', N+'SSLStream.cpp', N+'Buffer.cpp'], [('memory BIO over buffer lists', N+'SSLBioMem.cpp'), ('engine state machine', N+'SSLStreamOpenSSL.cpp')],
 ['plaintext output and engine state'])
prop('C28', 'Clocks never go back; sleeps and time limits never end early',
 'The time readings in milliseconds, precise milliseconds and nanoseconds agree with each other and with the monotonic clock of the system and never go back, in any thread. A sleep lasts at least as long as asked and ends within a bounded time after that. A time limit converts between a point in time and a duration from now without ending early, infinite limits stay infinite, and limits beyond the range of the clock saturate instead of wrapping around.',
 ['schedules', 'inputs', 'fault_sequences'],
 'All sleeps and limits of any length, concurrent with any forward movement and jump of the clock and any preemption between reading the clock and using it.',
 'A test cannot move the clock: it samples short sleeps with wide margins and never days of sleep or jumps.',
 [B+'Time.h', B+'Time_Unix.cpp', B+'Thread_Unix.cpp', B+'Thread.h'], [('conversion from the system clock', B+'Time_Unix.cpp'), ('sleep split into seconds and the rest', B+'Thread_Unix.cpp'), ('limit conversion', B+'Time.h')],
 ['virtual clock around each call'])
prop('C29', 'The shared state of the library is never accessed without synchronisation',
 'However the documented thread-safe calls (posting and closing tasks and sockets, starting and closing servers, resolving and cancelling, pushing to and popping from the queues, locking, signalling, pooled allocation) and the worker threads interleave, two accesses of the same plain field or buffer of the library by different threads, at least one of them a write, are always ordered by a mutex, an atomic operation of sufficient strength, a thread start or join, or the kernel. That includes the memory being given back: nothing is freed unless all its users are ordered before.',
 ['schedules', 'histories', 'fault_sequences'],
 'All schedules and call sequences, including those where the two accesses happen far apart and the outcome looks correct.',
 'A race is invisible in almost every run of a test: the outcome is wrong only when the two accesses meet and the machine reorders them, and the test suite is not built with a race detector.',
 [A+'TCPSocketIFace.cpp', A+'TCPServer.cpp', A+'TCPSocketCtl.cpp', A+'IOTask.cpp', A+'IOCore.cpp', N+'DomainToIP.cpp', S+'TaskScheduler.cpp', S+'Task.cpp', B+'MultiConsumerQueueBase.cpp', B+'MultiProducerQueueIntrusive.h', B+'InterruptibleMutex.cpp', B+'Signal.cpp', B+'ThreadLocalPool.h', B+'Thread.cpp', B+'RefCount.h'],
 [('front state of a socket under its mutex, worker state without', A+'TCPSocketIFace.cpp'), ('server state', A+'TCPServer.cpp'), ('scheduler role hand-over', A+'IOCore.cpp'), ('hand-over of task ownership by the status', S+'Task.cpp')],
 ['vector clocks over every instrumented access and free'])
prop('C30', 'No task starves while others keep the workers busy',
 'As long as the workers of a task scheduler or an IO core execute tasks at all, every task which became ready (posted, its deadline passed, woken up, signalled, an event of its descriptor, a posted close) is executed after a bounded number of executions of other tasks, even when those re-schedule themselves without an end and for any number of workers and any batch size. Deadlines, events and new posts are not deferred until the ready tasks run out.',
 ['schedules', 'histories', 'fault_sequences'],
 'All loads that never let the queues drain, for each kind of becoming ready, with any interleaving of the workers, role hand-overs and stalls.',
 'Tests wait for the queues to drain; starvation needs a load which never ends, and a wall-clock test can not tell a starving task from a slow machine.',
 [S+'TaskScheduler.cpp', S+'TaskScheduler.h', A+'IOCore_epoll.cpp', A+'IOCore_iouring.cpp', A+'IOCore.cpp'],
 [('order of the front, waiting, pending and ready queues', S+'TaskScheduler.cpp'), ('limited batches of the scheduler role', A+'IOCore_epoll.cpp'), ('limited batches of the workers', A+'IOCore.cpp')],
 ['counts of executions between becoming ready and being executed'])
# Pure, single-threaded facts: listed for breadth, not decidable by simulation.
prop('C90', 'Containers keep their contents and order under every operation sequence',
 'The intrusive lists and the binary heap always contain exactly the elements inserted and not removed, in the documented order, with each element reachable once.',
 ['programs', 'inputs'], 'All operation sequences.', 'Tests use a few sequences and sizes.',
 [B+'BinaryHeap.h', B+'DoublyList.h', B+'ForwardList.h'], [('link and heap maintenance', B+'BinaryHeap.h')], ['iteration over the container'])
prop('C91', 'Host and URL parsing accepts exactly the documented syntax',
 'Parsing an address or URL yields the parts of its text or a failure, and formatting an address and parsing it back gives the same address.',
 ['inputs'], 'All strings and addresses.', 'Tests use sample strings.',
 [N+'Host.cpp', N+'URL.cpp'], [('parsers', N+'Host.cpp')], ['parser results'])
prop('C92', 'String, formatting and error helpers are exact and memory-safe',
 'String formatting, number parsing, trimming and error value helpers return what they document for every input and never read or write out of bounds.',
 ['inputs'], 'All inputs.', 'Tests use sample inputs.',
 [B+'StringFunctions.cpp', B+'Error.cpp', B+'Log.cpp'], [('helpers', B+'StringFunctions.cpp')], ['return values'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
