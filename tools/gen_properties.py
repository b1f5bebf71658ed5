#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

SEM = ["src/Semaphore.hpp", "src/Semaphore.cpp"]
RBS = ["src/RingBufferSimple.hpp"]
RBG = ["src/RingBufferGuarded.hpp", "src/RingBufferSimple.hpp", "src/Semaphore.cpp"]
POOL = ["src/MemoryPoolBase.hpp", "src/MemoryPoolBase.cpp", "src/ObjectPool.hpp", "src/BlockPool.hpp",
        "src/ObjectPoolDeleter.hpp", "src/BlockPoolDeleter.hpp", "src/MemoryPoolDeleterBase.cpp"]
MQ = ["src/MessageQueue.hpp", "src/MessageQueue.cpp", "src/MessageQueueBase.hpp", "src/MessageQueueBase.cpp"]

prop("C01", "Semaphore count is exact: one take per available unit, never above maximum",
 "At every instant the available count equals the (clamped) initial count plus completed gives minus completed takes, is never negative and never exceeds the (clamped) maximum, so a take only succeeds against a unit nobody else took. "
 "Every take, give and available-count query behaves as if it happened atomically between its call and its return. "
 "A take whose functor throws, and a give whose functor throws, leave the count as if they had never been called.",
 ["schedules", "histories", "inputs"],
 "All interleavings of any number of threads calling take/give (plain and functor forms, functors that throw or not) and getAvailableCount, for every initial count and maximum.",
 "The tests sample a few OS schedules of a few threads and never check intermediate counts; a lost or duplicated unit needs a particular preemption.",
 SEM, [("count changed only under the mutex; decrement on take, increment on give, restore on functor exception", "src/Semaphore.cpp _take/_giveWait/_give/take(functor)")],
 [("availableCount", "units available", "src/Semaphore.cpp"), ("maxAvailableCount", "bound on availableCount", "src/Semaphore.cpp")],
 ["Semaphore::take", "Semaphore::give", "Semaphore::getAvailableCount"])

prop("C02", "No lost wakeup: a semaphore waiter never sleeps while it could proceed",
 "A thread blocked in take is released whenever a unit is available that no other thread consumes, and a thread blocked in give is released whenever the count is below the maximum and no other thread fills it; so when all activity has ceased, no thread is left blocked in a take with a positive count or in a give with a count below the maximum. "
 "This also holds when functors passed to take or give throw, and whichever of several waiters the operating system wakes.",
 ["schedules", "histories"],
 "All interleavings, wake-up orders and spurious wake-ups, any mix of blocked takers and givers, including operations whose functor throws.",
 "A lost wakeup shows only for a particular order of waits and signals and then appears as a hang; the tests use short timeouts on a few orders and never combine throwing functors with waiters.",
 SEM, [("signal take waiters on give, give waiters on take, re-test in a loop", "src/Semaphore.cpp _take/_takeNotify/_giveWait/_give")],
 [("takePendingCount/givePendingCount", "threads waiting", "src/Semaphore.cpp")],
 ["Semaphore::take", "Semaphore::give"])

prop("C03", "Semaphore functors run exactly once, alone, and only for a successful operation",
 "The functor passed to take or give is invoked exactly once by an operation that returns normally, after its unit is secured (take) or its room is secured (give) and before a give's unit becomes available to others, and never by an operation that reports abort or overflow. "
 "While a functor runs no other take or give on that semaphore takes effect and no other functor runs. "
 "An exception thrown by the functor (including the one for an empty function object) reaches the caller unchanged and the semaphore stays usable.",
 ["schedules", "histories", "inputs"],
 "All interleavings of functor operations with each other, plain operations, queries and abort; functors that return, throw or are empty.",
 "Tests run functors without contention at the critical points and cannot observe that two functors never overlap in any schedule.",
 SEM, [("functor invoked under the same lock as the count update, with restore on exception", "src/Semaphore.cpp take(functor)/give(functor)")],
 [], ["Semaphore::take(functor)", "Semaphore::give(functor)"])

prop("C04", "Semaphore abort wakes every waiter and is permanent",
 "After abort has returned, every take and give that is blocked, and every one called later, ends with a SemaphoreAborted exception without changing the count or running its functor, even if units or room are available. "
 "Operations overlapping abort either complete normally or throw SemaphoreAborted, abort may be called any number of times from any thread, and it never blocks forever.",
 ["schedules", "histories"],
 "All interleavings of one or several aborts with blocked and running takes and gives, both kinds of waiters at once.",
 "Tests abort once with waiters of one kind parked for a while; abort racing with a thread about to wait, or with both kinds of waiters, is not reached.",
 SEM, [("abort flag tested under the lock before every wait and after every wakeup; broadcast on both conditions", "src/Semaphore.cpp abort/_take/_giveWait")],
 [("abortFlag", "sticky", "src/Semaphore.cpp")], ["Semaphore::abort", "Semaphore::take", "Semaphore::give"])

prop("C05", "Semaphore limits: clamping of initial and maximum counts, overflow reported",
 "The initial count is clamped to 2^32-1; a maximum of zero means 2^32-1, and any other maximum is clamped to lie between the clamped initial count and 2^32-1. "
 "A give at a count of 2^32-1 throws SemaphoreOverflow and changes nothing, a give at a smaller maximum blocks, and a give below the maximum never blocks.",
 ["inputs", "configurations"],
 "Every pair of 64-bit constructor arguments, around and beyond the 32-bit boundary in particular, and every sequence of operations at the limits.",
 "Tests use a handful of argument pairs; the boundary behaviour of 64-bit arguments is a quantification over inputs.",
 SEM, [("doctorMaxAvailableCount and the numeric-limit test in give", "src/Semaphore.cpp")],
 [("maxAvailableCount", "clamped maximum", "src/Semaphore.cpp")], ["Semaphore::Semaphore", "Semaphore::give"])

prop("C06", "Mutex: mutual exclusion, honest try_lock, priority inheritance",
 "At most one thread owns a Mutex at a time, lock blocks only while another thread owns it and acquires it once free, and try_lock never blocks and returns true exactly when it acquired an unowned Mutex. "
 "Misuse the platform detects (such as unlock by a non-owner) is reported as std::system_error and leaves ownership unchanged. "
 "Every lock the library uses internally or offers is created with the priority-inheritance protocol, so a low-priority owner runs at the priority of its highest waiter.",
 ["schedules", "histories", "configurations"],
 "All interleavings of lock/try_lock/unlock by any number of threads; every Mutex and every library object containing one.",
 "There is no test for Mutex at all; exclusion is a property of all schedules and the protocol attribute is invisible to functional tests.",
 ["src/Mutex.hpp", "src/Mutex.cpp", "src/Semaphore.cpp", "src/MemoryPoolBase.cpp", "src/MessageQueueBase.cpp"],
 [("pthread mutex initialised with PTHREAD_PRIO_INHERIT; error codes mapped to exceptions", "src/Mutex.cpp")],
 [("nativeHandle", "the pthread mutex", "src/Mutex.hpp")], ["Mutex::lock", "Mutex::try_lock", "Mutex::unlock", "Mutex::native_handle"])

prop("C07", "RingBufferSimple is an exact bounded FIFO for any size and any length of use",
 "A simple ring buffer's size is the requested number rounded up to a power of two, at least 2 and at most 2^20, with the reported bit count and mask consistent with it. "
 "It accepts exactly that many values, returns them in the order they were put and unmodified, and keeps doing so for unlimited use, including beyond 2^32 operations. "
 "A get on an empty buffer throws RingBufferUnderflow and a put on a full buffer throws RingBufferOverflow, and neither changes the contents.",
 ["inputs", "histories", "configurations"],
 "Every requested size, element type and sequence of gets and puts of any length (counter roll-over included).",
 "Tests use a few sizes and a few hundred operations; counter roll-over needs 2^32 operations and rounding must hold for every size.",
 RBS, [("free-running 32-bit counters masked by a power-of-two size", "src/RingBufferSimple.hpp")],
 [("getCount/putCount", "free-running counters", "src/RingBufferSimple.hpp")],
 ["RingBufferSimple::get", "RingBufferSimple::put", "RingBufferSimple::getSize/getMask/getNumBits"])

prop("C08", "RingBufferGuarded: linearizable FIFO, each value delivered exactly once",
 "Concurrent put and get on a guarded ring buffer behave as atomic operations on one FIFO queue: every value put is obtained by exactly one get (or by flush), unmodified and in put order, and nothing else is ever obtained. "
 "It holds up to exactly the requested number of elements (for requests of 1 to 2^20, not rounded): a put with fewer elements held does not block, and no more are ever held.",
 ["schedules", "histories", "configurations"],
 "All interleavings of any number of producers and consumers, every requested capacity (powers of two or not), value, pointer and void-pointer element types.",
 "Tests sum values over a few OS schedules; ordering and exactly-once for every schedule, and exact capacity when not a power of two, are not checked.",
 RBG, [("simple ring operated inside semaphore functors; bipolar semaphore sized to the request", "src/RingBufferGuarded.hpp get/put")],
 [("semaphore", "number of elements held, bounded by the request", "src/RingBufferGuarded.hpp")],
 ["RingBufferGuarded::get", "RingBufferGuarded::put"])

prop("C09", "RingBufferGuarded never strands a producer or consumer",
 "A get blocked on an empty guarded ring buffer completes once a value is there that no other get takes, and a put blocked on a full one completes once there is room that no other put uses. "
 "When all activity has ceased no get is blocked while values are held, no put is blocked while fewer than the requested number are held, and after abort has returned none is blocked at all.",
 ["schedules", "histories"],
 "All interleavings and wake-up orders of producers and consumers on full, empty and intermediate buffers, before and after abort.",
 "A stranded thread needs a particular order of waits and signals on a full or empty buffer; tests run a few schedules and mostly on buffers that do not fill.",
 RBG, [("semaphore take/give signalling", "src/Semaphore.cpp"), ("abort sets the state, then aborts the semaphore", "src/RingBufferGuarded.hpp abort")],
 [], ["RingBufferGuarded::get", "RingBufferGuarded::put", "RingBufferGuarded::abort"])

prop("C10", "RingBufferGuarded life cycle: prime, ready, abort, flush",
 "A buffer built for priming rejects get and put with RingBufferStateError until prime has called its function once for each index from 0 to the requested number minus one, in order, storing the results in that order; prime is rejected with RingBufferStateError in any other state. "
 "After abort no get or put stores or obtains a value: get throws RingBufferStateError or SemaphoreAborted, put has no effect, and abort cuts a concurrent prime short without making the buffer usable. "
 "flush is rejected with RingBufferStateError unless the buffer was aborted, and then hands over exactly the values still held, in order, each once, including for a buffer never or only partly primed or already flushed.",
 ["schedules", "histories"],
 "All orders and interleavings of prime, get, put, abort (from any thread, also during prime), and flush once the other operations have ended.",
 "Tests walk the main life-cycle path; abort racing prime or operations, repeated flush, and flush of unprimed buffers are not covered.",
 RBG, [("atomic state NeedsPriming/Ready/Terminal and compare-exchange in prime", "src/RingBufferGuarded.hpp")],
 [("state", "life-cycle state", "src/RingBufferGuarded.hpp")],
 ["RingBufferGuarded::prime", "RingBufferGuarded::abort", "RingBufferGuarded::flush"])

prop("C11", "Pool memory is exclusive, large enough, aligned and undisturbed while owned",
 "At all times the storage of distinct live objects or blocks of a pool does not overlap, lies wholly inside memory the pool owns, is at least as large as the object or block and is aligned for pointers. "
 "Its bytes are changed only by its owner: no pool operation by any thread (creating, returning, failing) alters the contents of a live object or block, nor any memory outside the pool's. "
 "Blocks of scalar type are handed out with every element zero.",
 ["inputs", "configurations", "schedules", "histories"],
 "Every element size (multiples of the pointer size or not), pool size, sequence and interleaving of creations and returns by any number of threads.",
 "Tests use element sizes that happen to be well aligned and never write whole objects next to fresh allocations; overlap by a few bytes for odd sizes, or a block handed out twice under a race, goes unseen.",
 POOL, [("ring of block addresses under a mutex; arena stride; zeroing of the padded block", "src/MemoryPoolBase.cpp")],
 [("arena", "the pool's memory", "src/MemoryPoolBase.cpp"), ("ringBuffer", "free block addresses", "src/MemoryPoolBase.cpp")],
 ["ObjectPool::createObj", "BlockPool::getBlock", "smart pointer destruction"])

prop("C12", "A pool hands out exactly its size in elements and gets every one back",
 "A pool's size is the requested number rounded up to a power of two (at least 2, at most 2^20); a request fails with RingBufferUnderflow exactly when that many elements are already in use, and otherwise succeeds without blocking. "
 "Every element returns to the pool exactly once: when its smart pointer lets go of it in any thread, or when constructing it throws, in which case that exception reaches the caller. "
 "A request for an object larger than the pool's padded element size throws ObjectPoolElementSizeError and consumes nothing.",
 ["schedules", "histories", "inputs", "configurations"],
 "All interleavings of creation and release on any number of threads, constructors that throw at any point, every pool and object size.",
 "Tests exhaust a pool from one thread; leaks or double returns under races or throwing constructors accumulate unseen.",
 POOL, [("ring get/put under mutex; RawMemoryManager guards construction", "src/MemoryPoolBase.cpp, src/ObjectPool.hpp createObj, src/BlockPool.hpp getBlock")],
 [("ringBuffer", "free blocks", "src/MemoryPoolBase.cpp")], ["ObjectPool::createObj", "BlockPool::getBlock", "getSize"])

prop("C13", "Pooled objects are constructed and destroyed exactly once, as the right type",
 "Every object or block element created from a pool is constructed exactly once with the given arguments and destroyed exactly once, before its memory can be handed out again, through the destructor of its most derived type, whatever its position among that type's bases. "
 "This holds when the smart pointer is moved, reset, swapped, converted to shared_ptr or released in another thread. "
 "If construction throws, exactly the parts already constructed are destroyed; a block has exactly the number of elements requested and reports that number.",
 ["inputs", "histories", "schedules", "programs"],
 "Every derivation shape (single, multiple bases, final type), element count, sequence of ownership transfers and throwing constructor position.",
 "Tests count some destructor calls on single-inheritance types; multiple inheritance, partial block construction and cross-thread release are not covered.",
 POOL, [("deleter invokes the virtual destructor and returns the block", "src/ObjectPoolDeleter.hpp, src/BlockPoolDeleter.hpp"), ("placement new in createObj/getBlock", "src/ObjectPool.hpp, src/BlockPool.hpp")],
 [], ["ObjectPool::createObj", "ObjectPoolDeleter::operator()", "BlockPool::getBlock", "BlockPoolDeleter::operator()"])

prop("C14", "Pool statistics are truthful snapshots",
 "The reported size is constant; the reported running count always lies between 0 and size and equals size minus the elements in use, give or take only operations in progress at that moment; with no operation in progress it is exact. "
 "The low watermark equals the smallest running count there has been so far, never rises, and is never above the running count reported with it.",
 ["schedules", "histories"],
 "All interleavings of statistics queries with creation and release on any number of threads, including a full or exhausted pool.",
 "Tests read statistics while nothing else runs; transient values out of range or a lost update need a specific interleaving.",
 ["src/MemoryPoolBase.cpp", "src/MemoryPoolBase.hpp"],
 [("both counters packed in one atomic updated by compare-exchange", "src/MemoryPoolBase.cpp getRawBlock/returnRawBlock")],
 [("runningState", "packed running count and low watermark", "src/MemoryPoolBase.cpp")], ["getRunningStateStatistics"])

prop("C15", "MessageQueue delivers each message once, in order, to one dispatcher",
 "Messages put or emplaced into a queue are dispatched exactly once each, in enqueue order (two messages of which one was enqueued before the other was begun are never taken in the opposite order), on the thread that called get-and-dispatch, with the content and type they were given. "
 "At most the requested number of messages is held; put and emplace block only while that many are held or being dispatched or enqueued, get-and-dispatch blocks only while none is queued, and no thread stays blocked once it could proceed.",
 ["schedules", "histories", "configurations"],
 "All interleavings of any number of producers and dispatchers, queue depths from 1 up, message types and sizes.",
 "Tests run one schedule of one consumer; order, duplication, exact capacity and stranded threads quantify over all schedules.",
 MQ + ["src/RingBufferGuarded.hpp", "src/Semaphore.cpp"],
 [("pair of guarded rings: free slots and enqueued messages", "src/MessageQueueBase.cpp rawWaitAndGet/cookedPutAndNotify/cookedWaitAndGet/rawPutAndNotify")],
 [("rawRingBuffer/cookedRingBuffer", "free slots / queued messages", "src/MessageQueueBase.cpp")],
 ["MessageQueue::put", "MessageQueue::emplace", "MessageQueue::getAndDispatch"])

prop("C16", "Every enqueued message is destroyed exactly once and its slot recovered",
 "Each message constructed in a queue is destroyed exactly once: after its dispatch, even if dispatch, the wakeup functor or naming it throws (the exception reaching the caller), by purge, by the queue's destruction, or when enqueueing it fails because of abort; never while being dispatched, and its storage never overlaps another live message's. "
 "If constructing the message throws, the exception reaches the producer and nothing is enqueued. "
 "In all these cases the slot becomes available again, messages larger than the padded maximum are rejected with MessageQueueElementSizeError without using a slot, and purge, called while nobody adds or dispatches messages, leaves the queue empty and fully usable.",
 ["schedules", "histories", "inputs"],
 "All interleavings and all throwing positions (constructor, name, wakeup functor, dispatch), purge and destruction at any fill level, multiple-inheritance message types.",
 "Tests never let a dispatch or constructor throw under load nor count destructor calls over aborts; leaks and double destruction there go unseen.",
 MQ, [("RawMemoryManager and CookedMemoryManager guards", "src/MessageQueueBase.hpp"), ("flush in the destructor", "src/MessageQueueBase.cpp ~Imple")],
 [("arena", "message slots", "src/MessageQueueBase.cpp")], ["MessageQueue::put/emplace/getAndDispatch/purge/~MessageQueue"])

prop("C17", "Dispatch locking excludes dispatch from lock-holding code",
 "With dispatch locking enabled, no message is dispatched while any thread holds an auto dispatch lock and at most one thread holds one or dispatches at a time; dispatch resumes once it is released, whether by unlock or destruction. "
 "A lock can be unlocked and locked again, and moved: exactly the final owner releases it, exactly once, and a lock overwritten by move-assignment is released. "
 "With dispatch locking disabled, asking for a lock throws MessageQueueDispatchLockingDisabled.",
 ["schedules", "histories"],
 "All interleavings of dispatchers and lock holders, all sequences of lock, unlock, move-construct, move-assign and destroy.",
 "Tests take the lock in one schedule; exclusion under every schedule and ownership through moves is not covered.",
 MQ + ["src/Mutex.cpp"], [("one Mutex taken by dispatch and by AutoDispatchLock", "src/MessageQueueBase.cpp dispatchMessage, AutoDispatchLock")],
 [("locked", "whether this AutoDispatchLock owns the mutex", "src/MessageQueueBase.hpp")], ["getAutoDispatchLock", "AutoDispatchLock", "getAndDispatch"])

prop("C18", "MessageQueue abort releases everybody and shuts down cleanly",
 "After abort has returned, every blocked put, emplace and get-and-dispatch, and every later one, ends with a SemaphoreAborted or RingBufferStateError exception and dispatches or enqueues nothing. "
 "A dispatch in progress runs to its end and its call returns normally; abort at any moment, repeated or concurrent, never terminates the program, blocks forever, or makes put or emplace return normally for a message that was not enqueued.",
 ["schedules", "histories"],
 "Abort (or destruction after callers were told to stop) at every point of every put, emplace, and get-and-dispatch, for any fill level.",
 "The window between checking for abort and using the slot is a few instructions wide; tests abort idle or parked threads only.",
 MQ + ["src/RingBufferGuarded.hpp"], [("abort flag, then abort of both rings; destructor aborts, waits, flushes", "src/MessageQueueBase.cpp abort/~MessageQueueBase")],
 [("aborted", "abort flag", "src/MessageQueueBase.cpp")], ["MessageQueue::abort", "MessageQueue::put/emplace/getAndDispatch", "~MessageQueue"])

prop("C19", "MessageQueue statistics, last-dispatched name and wakeup calls are truthful",
 "The reported size is the requested one; the running count always lies between 0 and size and equals the messages held (queued, being enqueued or being dispatched) give or take only operations in progress, and the high watermark equals the largest running count so far and is never below the running count reported with it. "
 "The last-dispatched name is \"[NONE]\" at first, becomes a message's name after that message was taken from the queue and before its dispatch begins, and otherwise does not change. "
 "A wakeup functor is called exactly once per message obtained, on the dispatching thread, after the message is available and before it is dispatched.",
 ["schedules", "histories"],
 "All interleavings of queries with producers and dispatchers; every fill level; wakeup functors that throw or not.",
 "Tests read statistics at rest; transient out-of-range values and ordering of the name with dispatch need specific interleavings.",
 MQ, [("packed atomic counters; name stored before dispatch; wakeup functor call", "src/MessageQueueBase.cpp, src/MessageQueue.cpp")],
 [("runningState", "packed running count and high watermark", "src/MessageQueueBase.cpp"), ("nameOfLastMessageDispatched", "", "src/MessageQueueBase.cpp")],
 ["getRunningStateStatistics", "getNameOfLastMessageDispatched", "getAndDispatch(wakeup)"])

json_path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(json_path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
