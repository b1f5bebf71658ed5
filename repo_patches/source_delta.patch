From a02107318188e117386cb02a7341f62a734be496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 01/13] fix: Semaphore take with a throwing functor passes its
 notification on

A taker that was woken and whose functor throws restores the available count
but the other waiting takers were never notified of it and could wait forever.
---
 src/Semaphore.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..e22f860 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -160,17 +160,18 @@ public:
         _take(lock);
 
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            // Restoring the count makes it available to others. The notification that got us here is passed on.
+            ~AvailableCountManager() noexcept { if ( !released ) { ++rImple.availableCount; rImple._giveNotify(); } }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & rImple;
             bool released{ false };
         };
 
         // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -377,6 +378,18 @@ private:
 
         ++availableCount;
 
+        _giveNotify();
+    }
+
+    /**
+    * @brief The Give Notification Internals
+    *
+    * This operation is for internal use whenever the available count has been incremented.
+    * It expects that our mutex has been acquired prior to invocation.
+    * It wakes, at most, one thread waiting to "take".
+    */
+    inline void _giveNotify() noexcept
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From 640e5f0d29b285ece5bdc8a904213920f974fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 02/13] fix: Semaphore give with a throwing functor passes its
 notification on

A giver that was woken and whose functor throws left the room it was notified
of unused while the other waiting givers were never notified of it.
---
 src/Semaphore.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index e22f860..d284b9a 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -211,7 +211,22 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
+
+        // Should the operation throw, the room we were notified of remains. That notification is passed on.
+        struct GiveNotificationManager {
+            explicit GiveNotificationManager( Imple & theImple ) noexcept : rImple(theImple)  {}
+            ~GiveNotificationManager() noexcept { if ( !released ) rImple._takeNotify(); }
+
+            void release() { released = true; }
+
+            Imple & rImple;
+            bool released{ false };
+        };
+
+        GiveNotificationManager giveNotificationManager{ *this };
         operation();
+        giveNotificationManager.release();
+
         _give();
     }
 
@@ -264,7 +279,7 @@ private:
     *
     * This operation will notify at most, one waiting give thread.
     */
-    inline void _takeNotify()
+    inline void _takeNotify() noexcept
     {
         // If we have any pending "givers", we must notify them.
         if ( givePendingCount )
-- 
2.43.0


From 0c599d943f04d9d2fce878855a557af7222672d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 03/13] fix: Semaphore clamps a maximum available count beyond
 2^32-1

It was truncated to its low 32 bits, e.g. 2^32 became a maximum of zero,
below the initial count, and every give blocked.
---
 src/Semaphore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d284b9a..42ff6db 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -447,9 +447,11 @@ private:
     {
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
 
-        // If here, neither of the above were true, return the maximum available count as is.
-        return theMaxAvailableCount;
+        // If here, none of the above were true, return the maximum available count as is.
+        return AvailableCountType( theMaxAvailableCount );
     }
 
     /**
-- 
2.43.0


From ff519e00a099dfc82717896ba5fa8e576fb999d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 04/13] fix: lay out the memory pool arena with the padded
 element size

Blocks are zeroed over the padded element size when handed out, but were
laid out with the unpadded size: neighbours overlapped, the last block
ran past the arena and blocks were not aligned.
---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From 65ab0c5057fb70fdbb3c2df39b60b1b3a7255ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 05/13] fix: count a pool block as returned before it can be
 obtained again

A concurrent getRawBlock could obtain the block and decrement the running
count first, wrapping it (and the low watermark) around zero.
---
 src/MemoryPoolBase.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..6f111d9 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,15 +222,6 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
         // Manage Watermark Logic
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
@@ -239,11 +230,22 @@ private:
         {
             // Clone atomically captured state,
             // We will be incrementing the running count and not touching the low watermark.
+            // This must precede the block's return. Otherwise, whoever obtains it next could decrement first,
+            // taking the running count (and low watermark) below zero.
             runningStatsNew.state = runningStats.state;
             ++runningStatsNew.counts.runningCount;
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
-- 
2.43.0


From eb041c0143064719c32ba8bbb382ab3a880b85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 06/13] fix: count a message's memory as returned before it can
 be obtained again

A concurrent rawWaitAndGet could obtain the memory and increment the running
count first, taking it and the high watermark above the queue's size.
---
 src/MessageQueueBase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..b5b6dff 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,9 +421,6 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
-
     // Manage running count.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
@@ -433,11 +430,16 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     {
         // Clone atomically captured state,
         // We will be decrementing the running count and not touching the high watermark.
+        // This must precede the memory's return. Otherwise, whoever obtains it next could increment first,
+        // taking the running count (and high watermark) above our size.
         runningStatsNew.state = runningStats.state;
         --runningStatsNew.counts.runningCount;
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory into the cooked ring buffer.
+    rawRingBuffer.put( pRaw );
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From e2cf302faabd0aeb1f3d61fb8456efe3a3daaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 07/13] fix: do not let an abort terminate a thread returning
 message memory

RawMemoryManager and CookedMemoryManager return memory from their destructors.
An abort between the ring buffer's state check and its semaphore made put throw
SemaphoreAborted out of them.
---
 src/MessageQueueBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index b5b6dff..2185165 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -438,8 +438,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory into the raw ring buffer. Our clients return memory from within destructors.
+    // Should we be aborted, nobody will obtain the memory again and there is nothing to report.
+    try { rawRingBuffer.put( pRaw ); } catch ( const SemaphoreAborted & ) {}
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 4cc2e3dc944091877ed3590c18fc2579426bfc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 08/13] fix: a message that cannot be enqueued due to an abort
 is destroyed and reported

An abort between obtaining raw memory and putting the cooked message made put and
emplace either return normally for a message dropped or throw, leaking it.
---
 src/MessageQueueBase.cpp  |  6 +++++-
 src/MessageQueueBase.hpp  |  7 +++++++
 src/RingBufferGuarded.hpp | 11 ++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 2185165..8fe3e4c 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -173,7 +173,8 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        if ( !cookedRingBuffer.put( pCooked ) )
+            throw SemaphoreAborted{ "MessageQueueBase::Imple::cookedPutAndNotify() aborted!" };
     }
 
     /**
@@ -497,7 +498,10 @@ void * MessageQueueBase::rawWaitAndGet()
 
 void MessageQueueBase::cookedPutAndNotify( MessageBase * pCooked )
 {
+    // Should we not be able to deliver it, the message is destroyed and its memory returned.
+    CookedMemoryManager cookedMemoryManager{ this, pCooked };
     pImple->cookedPutAndNotify( pCooked );
+    cookedMemoryManager.release();
 }
 
 MessageBase * MessageQueueBase::cookedWaitAndGet()
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..7cc2058 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -445,6 +445,13 @@ namespace ReiserRT
                 */
                 CookedMemoryManager &operator=( CookedMemoryManager &&another ) = delete;
 
+                /**
+                * @brief Release Responsibility
+                *
+                * This operation relieves us of the responsibility for the MessageBase object. It has been delivered.
+                */
+                void release() { pMsg = nullptr; }
+
             private:
                 /**
                 * @brief A Reference to the MessageQueueBase that constructed us.
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..82cea43 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -167,11 +167,13 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns false if the value was not put into the ring buffer because it is in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                if ( state == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( state != State::Ready )
@@ -184,6 +186,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -563,8 +566,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns false if the pointer was not put into the ring buffer because it is in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From 2f12321eb9b2a7c555c047a9c2498fbc148e3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 09/13] fix: return message memory from where the complete
 message object begins

With MessageBase not the first base class of a message, the memory returned
was offset: later messages overran it.
---
 src/MessageQueueBase.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 7cc2058..9c307cf 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -425,7 +425,17 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        // MessageBase need not be the first base of what we destroy. The raw memory begins where the
+                        // complete object does.
+                        void * pRaw = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pRaw );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
-- 
2.43.0


From 710cb612d0da0c4edbb8dc2df1ada5f1091f2dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 10/13] fix: an auto dispatch lock overwritten by move
 assignment is released

It was forgotten: the queue could never dispatch again.
---
 src/MessageQueueBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 9c307cf..dfeeab7 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,8 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        // What we hold must not be forgotten.
+                        unlock();
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From 448a1cbcd418dc1381888bcd1387c88682bf43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 11/13] fix: flushing a ring buffer not (fully) primed or
 already flushed stops when empty

It threw RingBufferUnderflow instead.
---
 src/RingBufferGuarded.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 82cea43..e749f8e 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -271,7 +271,13 @@ namespace ReiserRT
                 }
 
                 const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                for ( size_t i = 0; count != i; ++i )
+                {
+                    // We may hold less than what the semaphore counts if never, or only partly primed, or flushed before.
+                    T val;
+                    try { val = Base::get(); } catch ( const RingBufferUnderflow & ) { break; }
+                    operation( val );
+                }
             }
 
             /**
-- 
2.43.0


From 571c1b5b6672f656ce2e8aa9eb116a0d2fdf20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 12/13] fix: return a pooled object's block from where the
 complete object begins

With the pool's type not the first base class of an object, the block
returned was offset: later objects overran it.
---
 src/ObjectPoolDeleter.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..c37d0e5 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,19 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // Type T need not be the first base of the object created. The raw block begins where the
+                // complete object does.
+                void * pRaw;
+                if constexpr ( std::is_polymorphic< T >::value )
+                    pRaw = dynamic_cast< void * >( pT );
+                else
+                    pRaw = pT;
+
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
         };
     }
 }
-- 
2.43.0


From 4f12205f894f7f1096a050e4dbb4141d9eef360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 13/13] fix: a put overtaken by abort no longer reports a wrong
 ring buffer state

---
 src/RingBufferGuarded.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index e749f8e..c9ed175 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -172,11 +172,13 @@ namespace ReiserRT
             */
             inline bool put( T val )
             {
-                // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return false;
+                // If we are in the terminal state, we will just get out of the way. The state is looked at only once as
+                // an abort may come at any time.
+                const State currentState = state;
+                if ( currentState == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
-                if ( state != State::Ready )
+                if ( currentState != State::Ready )
                 {
                     throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                 }
-- 
2.43.0

