From 01de6d7c4c7a643b3eb6b474c47030ddb7e8c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 01/31] fix: lock events queue when scheduling default history
 transition

---
 src/HsmImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b00c921..ff2993f 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1449,7 +1449,10 @@ void HierarchicalStateMachine::Impl::transitionToDefaultHistoryState(
                                                                       cbTransition,
                                                                       nullptr);
 
-        mPendingEvents.push_front(defHistoryTransitionEvent);
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            mPendingEvents.push_front(defHistoryTransitionEvent);
+        }
     }
 }
 
-- 
2.43.0


From e5b486b15082617925810816d1b37b2316bce501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 02/31] fix: check HSM events queue only while holding its lock

---
 src/HsmImpl.cpp | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index ff2993f..b8009cd 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -611,7 +611,14 @@ void HierarchicalStateMachine::Impl::handleStartup() {
             }
         }
 
-        if (false == mPendingEvents.empty()) {
+        bool hasPendingEvents = false;
+
+        {
+            HSM_SYNC_EVENTS_QUEUE();
+            hasPendingEvents = (false == mPendingEvents.empty());
+        }
+
+        if (true == hasPendingEvents) {
             dispatcherPtr->emitEvent(mEventsHandlerId);
         }
     }
@@ -622,7 +629,7 @@ void HierarchicalStateMachine::Impl::transitionSimple(const EventID_t event) {
 }
 
 void HierarchicalStateMachine::Impl::dispatchEvents() {
-    HSM_TRACE_CALL_DEBUG_ARGS("mPendingEvents.size=%ld", mPendingEvents.size());
+    HSM_TRACE_CALL_DEBUG();
     auto dispatcherPtr = mDispatcher.lock();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -630,22 +637,36 @@ void HierarchicalStateMachine::Impl::dispatchEvents() {
         UniqueLock lk = mIsDispatching.lock();
 
         if (false == mStopDispatching) {
-            if (false == mPendingEvents.empty()) {
+            bool hasPendingEvent = false;
+            bool hasMoreEvents = false;
+
+            {
                 PendingEventInfo pendingEvent;
 
                 {
                     HSM_SYNC_EVENTS_QUEUE();
-                    pendingEvent = std::move(mPendingEvents.front());
-                    mPendingEvents.pop_front();
+
+                    if (false == mPendingEvents.empty()) {
+                        pendingEvent = std::move(mPendingEvents.front());
+                        mPendingEvents.pop_front();
+                        hasPendingEvent = true;
+                    }
                 }
 
-                HsmEventStatus transitiontStatus = doTransition(pendingEvent);
+                if (true == hasPendingEvent) {
+                    HsmEventStatus transitiontStatus = doTransition(pendingEvent);
 
-                HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
-                pendingEvent.unlock(transitiontStatus);
+                    HSM_TRACE_DEBUG("unlock with status %d", SC2INT(transitiontStatus));
+                    pendingEvent.unlock(transitiontStatus);
+                }
+            }
+
+            {
+                HSM_SYNC_EVENTS_QUEUE();
+                hasMoreEvents = (false == mPendingEvents.empty());
             }
 
-            if ((false == mStopDispatching) && (false == mPendingEvents.empty())) {
+            if ((false == mStopDispatching) && (true == hasMoreEvents)) {
                 dispatcherPtr->emitEvent(mEventsHandlerId);
             }
         }
-- 
2.43.0


From 2eeee3d6776bc1b443cd92599c92edb266639352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 03/31] fix: generate dispatcher handler ids under the registry
 lock

---
 src/HsmEventDispatcherBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index b1c8812..8911f74 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -38,8 +38,8 @@ void HsmEventDispatcherBase::stop() {
 
 HandlerID_t HsmEventDispatcherBase::registerEventHandler(const EventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEventHandlers[id] = handler;
 
@@ -101,8 +101,8 @@ void HsmEventDispatcherBase::enqueueAction(ActionHandlerFunc_t actionCallback) {
 
 HandlerID_t HsmEventDispatcherBase::registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& handler) {
     HSM_TRACE_CALL_DEBUG();
-    HandlerID_t id = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    HandlerID_t id = getNextHandlerID();
 
     mEnqueuedEventHandlers[id] = handler;
 
@@ -117,8 +117,8 @@ void HsmEventDispatcherBase::unregisterEnqueuedEventHandler(const HandlerID_t ha
 }
 
 HandlerID_t HsmEventDispatcherBase::registerTimerHandler(const TimerHandlerFunc_t& handler) {
-    const HandlerID_t newID = getNextHandlerID();
     LockGuard lck(mHandlersSync);
+    const HandlerID_t newID = getNextHandlerID();
 
     mTimerHandlers[newID] = handler;
 
-- 
2.43.0


From e36c5e21e675378776018ba852d14c4562668b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 04/31] fix: access enqueued events and their handlers only
 under corresponding locks

---
 src/HsmEventDispatcherBase.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 8911f74..7082b72 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -75,13 +75,16 @@ void HsmEventDispatcherBase::emitEvent(const HandlerID_t handlerID) {
 bool HsmEventDispatcherBase::enqueueEvent(const HandlerID_t handlerID, const EventID_t event) {
     bool wasAdded = false;
 
-    if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
-        {
-            CriticalSection cs(mEnqueuedEventsSync);
+    {
+        CriticalSection cs(mEnqueuedEventsSync);
+
+        if (mEnqueuedEvents.size() < mEnqueuedEvents.capacity()) {
             mEnqueuedEvents.emplace_back(handlerID, event);
+            wasAdded = true;
         }
+    }
 
-        wasAdded = true;
+    if (true == wasAdded) {
         notifyDispatcherAboutEvent();
     }
 
@@ -283,7 +286,7 @@ unsigned int HsmEventDispatcherBase::handleTimerEvent(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
-    if ((false == mStopDispatcher) && (false == mEnqueuedEvents.empty())) {
+    if (false == mStopDispatcher) {
         HandlerID_t prevHandlerID = INVALID_HSM_DISPATCHER_HANDLER_ID;
         EnqueuedEventHandlerFunc_t callback;
         std::vector<EnqueuedEventInfo> currentEvents;
@@ -299,11 +302,16 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
         // need to traverse events in reverse order
         for (auto it = currentEvents.rbegin(); (it != currentEvents.rend()) && (false == mStopDispatcher); ++it) {
             if (prevHandlerID != it->handlerID) {
+                LockGuard lck(mHandlersSync);
+
                 callback = getEnqueuedEventHandlerFunc(it->handlerID);
                 prevHandlerID = it->handlerID;
             }
 
-            callback(it->eventID);
+            // NOTE: handler could have been unregistered after event was enqueued
+            if (callback) {
+                callback(it->eventID);
+            }
         }
     }
 }
-- 
2.43.0


From 95af424c197d4dc619b93cbf219c35c4ff474e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 05/31] fix: check dispatcher queues only while holding their
 lock

---
 src/HsmEventDispatcherBase.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 7082b72..c9ff5b5 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -317,17 +317,15 @@ void HsmEventDispatcherBase::dispatchEnqueuedEvents() {
 }
 
 void HsmEventDispatcherBase::dispatchPendingActions() {
-    if (false == mPendingActions.empty()) {
-        std::list<ActionHandlerFunc_t> actionsSnapshot;
+    std::list<ActionHandlerFunc_t> actionsSnapshot;
 
-        {
-            LockGuard lck(mEmitSync);
-            actionsSnapshot = std::move(mPendingActions);
-        }
+    {
+        LockGuard lck(mEmitSync);
+        actionsSnapshot.swap(mPendingActions);
+    }
 
-        for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
-            actionCallback();
-        }
+    for (const ActionHandlerFunc_t& actionCallback : actionsSnapshot) {
+        actionCallback();
     }
 }
 
@@ -336,9 +334,9 @@ void HsmEventDispatcherBase::dispatchPendingEvents() {
 
     dispatchPendingActions();
 
-    if (false == mPendingEvents.empty()) {
+    {
         LockGuard lck(mEmitSync);
-        events = std::move(mPendingEvents);
+        events.swap(mPendingEvents);
     }
 
     dispatchPendingEventsImpl(events);
-- 
2.43.0


From 36a6f0cacfc91ab072b3cb25e233d0fd3cd4a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 06/31] fix: lock timers registry in isTimerRunning()

---
 src/HsmEventDispatcherBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index c9ff5b5..62082fe 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -210,6 +210,8 @@ void HsmEventDispatcherBase::stopTimer(const TimerID_t timerID) {
 }
 
 bool HsmEventDispatcherBase::isTimerRunning(const TimerID_t timerID) {
+    LockGuard lck(mHandlersSync);
+
     return (mActiveTimers.find(timerID) != mActiveTimers.end());
 }
 
-- 
2.43.0


From dced4e161fb96a28f5f3ab0a5afbee16fe191af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 07/31] fix: synchronize access to status of sync transitions

---
 src/HsmImpl.cpp      |  3 +--
 src/HsmImplTypes.cpp | 20 ++++++++++++++++----
 src/HsmImplTypes.hpp |  2 +-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index b8009cd..4fcc95c 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -441,8 +441,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 
         if (true == sync) {
             HSM_TRACE_DEBUG("transitionEx: wait...");
-            eventInfo.wait(timeoutMs);
-            status = (HsmEventStatus::DONE_OK == *eventInfo.transitionStatus);
+            status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
         } else {
             // always return true for async transitions
             status = true;
diff --git a/src/HsmImplTypes.cpp b/src/HsmImplTypes.cpp
index 3406f41..f788b41 100644
--- a/src/HsmImplTypes.cpp
+++ b/src/HsmImplTypes.cpp
@@ -4,6 +4,7 @@
 #include "HsmImplTypes.hpp"
 
 #include "hsmcpp/logging.hpp"
+#include "hsmcpp/os/LockGuard.hpp"
 
 namespace hsmcpp {
 
@@ -143,9 +144,11 @@ bool PendingEventInfo::isSync() const {
     return (nullptr != cvLock);
 }
 
-void PendingEventInfo::wait(const int timeoutMs) {
+HsmEventStatus PendingEventInfo::wait(const int timeoutMs) {
+    HsmEventStatus status = HsmEventStatus::PENDING;
+
     if (true == isSync()) {
-        // NOTE: lock is needed only because we have to use cond variable
+        // NOTE: transitionStatus is updated from dispatcher thread and must be accessed only under this lock
         UniqueLock lck(*cvLock);
 
         HSM_TRACE_CALL_DEBUG_ARGS("trying to wait... (current status=%d, %p)",
@@ -161,8 +164,13 @@ void PendingEventInfo::wait(const int timeoutMs) {
             syncProcessed->wait(lck, [=]() { return (HsmEventStatus::PENDING != *transitionStatus); });
         }
 
-        HSM_TRACE_DEBUG("unlocked! transitionStatus=%d", SC2INT(*transitionStatus));
+        // NOTE: condition variable releases the lock after waiting
+        lck.lock();
+        status = *transitionStatus;
+        HSM_TRACE_DEBUG("unlocked! transitionStatus=%d", SC2INT(status));
     }
+
+    return status;
 }
 
 void PendingEventInfo::unlock(const HsmEventStatus status) {
@@ -170,7 +178,11 @@ void PendingEventInfo::unlock(const HsmEventStatus status) {
 
     if (true == isSync()) {
         HSM_TRACE_DEBUG("SYNC object (%p)", transitionStatus.get());
-        *transitionStatus = status;
+
+        {
+            LockGuard lck(*cvLock);
+            *transitionStatus = status;
+        }
 
         if (status != HsmEventStatus::PENDING) {
             syncProcessed->notify();
diff --git a/src/HsmImplTypes.hpp b/src/HsmImplTypes.hpp
index 18b3f70..6c15f1e 100644
--- a/src/HsmImplTypes.hpp
+++ b/src/HsmImplTypes.hpp
@@ -99,7 +99,7 @@ struct PendingEventInfo {
     void initLock();
     void releaseLock();
     bool isSync() const;
-    void wait(const int timeoutMs = HSM_WAIT_INDEFINITELY);
+    HsmEventStatus wait(const int timeoutMs = HSM_WAIT_INDEFINITELY);
     void unlock(const HsmEventStatus status);
     const VariantVector_t& getArgs() const;
 };
-- 
2.43.0


From a8ad643401e6453e6f66c9d4df572532a0eeeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 08/31] fix: make stop flags shared between threads atomic

---
 include/hsmcpp/HsmEventDispatcherBase.hpp | 11 ++++++++++-
 src/HsmImpl.hpp                           | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherBase.hpp b/include/hsmcpp/HsmEventDispatcherBase.hpp
index 07d95f9..8600b57 100644
--- a/include/hsmcpp/HsmEventDispatcherBase.hpp
+++ b/include/hsmcpp/HsmEventDispatcherBase.hpp
@@ -11,6 +11,11 @@
 
 #include "IHsmEventDispatcher.hpp"
 #include "os/Mutex.hpp"
+#include "os/os.hpp"
+
+#ifdef STL_AVAILABLE
+  #include <atomic>
+#endif
 
 /**
  * @details Default queue size used for enqueued events.
@@ -275,7 +280,11 @@ protected:
     Mutex mHandlersSync;
     Mutex mEnqueuedEventsSync;
     Mutex mRunningTimersSync;
-    bool mStopDispatcher = false;
+#ifdef STL_AVAILABLE
+    std::atomic<bool> mStopDispatcher{false};
+#else
+    volatile bool mStopDispatcher = false;
+#endif
 };
 
 }  // namespace hsmcpp
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 06a4053..bf8a29d 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -16,9 +16,14 @@
 #include "hsmcpp/os/Mutex.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
 #include "hsmcpp/os/AtomicFlag.hpp"
+#include "hsmcpp/os/os.hpp"
 #include "hsmcpp/variant.hpp"
 #include "HsmImplTypes.hpp"
 
+#ifdef STL_AVAILABLE
+  #include <atomic>
+#endif
+
 namespace hsmcpp {
 
 class IHsmEventDispatcher;
@@ -198,7 +203,11 @@ private:
     HandlerID_t mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
-    bool mStopDispatching = false;
+#ifdef STL_AVAILABLE
+    std::atomic<bool> mStopDispatching{false};
+#else
+    volatile bool mStopDispatching = false;
+#endif
 
     HsmTransitionFailedCallback_t mFailedTransitionCallback;
 
-- 
2.43.0


From b3e4b55ec453ecf726f35cae09368e6a3fc99205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 09/31] fix: don't execute transition conditions while events
 queue is locked

---
 src/HsmImpl.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4fcc95c..ab214ce 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -965,25 +965,29 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     StateID_t currentState = fromState;
     std::list<TransitionInfo> possibleTransitions;
+    std::list<EventID_t> pendingEvents;
     EventID_t nextEvent = INVALID_HSM_EVENT_ID;
     bool possible = true;
 
     {
-        // NOTE: findTransitionTarget can be a bit heavy. possible optimization to reduce lock time is
-        //       to make a copy of mPendingEvents and work with it
+        // NOTE: make a copy to avoid executing transition conditions (user callbacks) while events queue is locked
         HSM_SYNC_EVENTS_QUEUE();
 
-        for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()) && (true == possible); ++it) {
-            nextEvent = it->id;
-            possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+        for (const PendingEventInfo& pendingEvent : mPendingEvents) {
+            pendingEvents.emplace_back(pendingEvent.id);
+        }
+    }
 
-            if (true == possible) {
-                if (false == possibleTransitions.empty()) {
-                    currentState = possibleTransitions.front().destinationState;
-                } else {
-                    possible = false;
-                    break;
-                }
+    for (auto it = pendingEvents.begin(); (it != pendingEvents.end()) && (true == possible); ++it) {
+        nextEvent = *it;
+        possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
+
+        if (true == possible) {
+            if (false == possibleTransitions.empty()) {
+                currentState = possibleTransitions.front().destinationState;
+            } else {
+                possible = false;
+                break;
             }
         }
     }
-- 
2.43.0


From f6c8cce63b57ce786d4a5040ff388e6f35de9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 10/31] fix: keep unfinished parts of ongoing transition when
 events queue is cleared

---
 src/HsmImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index ab214ce..c6fa059 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1570,14 +1570,15 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
 void HierarchicalStateMachine::Impl::clearPendingEvents() {
     HSM_TRACE_CALL_DEBUG_ARGS("clearPendingEvents: mPendingEvents.size()=%ld", mPendingEvents.size());
 
-    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end()); ++it) {
+    for (auto it = mPendingEvents.begin(); (it != mPendingEvents.end());) {
         // since ongoing transitions can't be canceled we need to treat entry point transitions as atomic
         if (TransitionBehavior::REGULAR == it->transitionType) {
             it->releaseLock();
+            it = mPendingEvents.erase(it);
+        } else {
+            ++it;
         }
     }
-
-    mPendingEvents.clear();
 }
 
 bool HierarchicalStateMachine::Impl::hasSubstates(const StateID_t parent) const {
-- 
2.43.0


From 471b16c29210d5ee8f85685ea30cba963dbbfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 11/31] fix: don't treat HSM as initialized when registration
 of its handlers failed

---
 src/HsmImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index c6fa059..0d5923c 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -128,7 +128,8 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                     createEnqueuedEventHandler(dispatcherPtr, ptrInstance);
 
                     if ((INVALID_HSM_DISPATCHER_HANDLER_ID != mEventsHandlerId) &&
-                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId)) {
+                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mTimerHandlerId) &&
+                        (INVALID_HSM_DISPATCHER_HANDLER_ID != mEnqueuedEventsHandlerId)) {
                         logHsmAction(HsmLogAction::IDLE,
                                      INVALID_HSM_STATE_ID,
                                      INVALID_HSM_STATE_ID,
@@ -142,6 +143,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
+                        mDispatcher.reset();
                     }
                 }
             } else {
-- 
2.43.0


From a144c20f082ec93b712642e332071def9398b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 12/31] fix: stop exiting states after exit was blocked by one
 of them

---
 src/HsmImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 0d5923c..6f9941d 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1346,6 +1346,9 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
                     mActiveStates.emplace_back(curState);
                     onStateChanged(curState, VariantVector_t());
                 }
+
+                // exit was blocked, so other matching transitions must not be processed
+                break;
             }
         }
     }
-- 
2.43.0


From da67b0fe283eb1347fe8df7e0431035685fc1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 13/31] fix: don't allocate memory in CriticalSection since
 it's used from interrupts

---
 include/hsmcpp/os/common/CriticalSection.hpp | 5 ++---
 src/os/common/CriticalSection.cpp            | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/hsmcpp/os/common/CriticalSection.hpp b/include/hsmcpp/os/common/CriticalSection.hpp
index 2f57053..e450f4f 100644
--- a/include/hsmcpp/os/common/CriticalSection.hpp
+++ b/include/hsmcpp/os/common/CriticalSection.hpp
@@ -3,12 +3,11 @@
 #ifndef HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 #define HSMCPP_OS_COMMON_CRITICALSECTION_HPP
 
-#include <memory>
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
 class Mutex;
-class InterruptsFreeSection;
 
 class CriticalSection {
 public:
@@ -23,7 +22,7 @@ private:
 
 private:
     Mutex& mSync;
-    std::unique_ptr<InterruptsFreeSection> mInterruptsBlock;
+    InterruptsFreeSection mInterruptsBlock;
 };
 
 }  // namespace hsmcpp
diff --git a/src/os/common/CriticalSection.cpp b/src/os/common/CriticalSection.cpp
index f35a29a..48c773a 100644
--- a/src/os/common/CriticalSection.cpp
+++ b/src/os/common/CriticalSection.cpp
@@ -2,14 +2,12 @@
 // Distributed under MIT license. See file LICENSE for details
 #include "hsmcpp/os/common/CriticalSection.hpp"
 
-#include "hsmcpp/os/InterruptsFreeSection.hpp"
 #include "hsmcpp/os/Mutex.hpp"
 
 namespace hsmcpp {
 
 CriticalSection::CriticalSection(Mutex& sync)
-    : mSync(sync)
-    , mInterruptsBlock(new InterruptsFreeSection()) {
+    : mSync(sync) {
     mSync.lock();
 }
 
-- 
2.43.0


From 7084ad3c375687450b2ddd5bf8edcea12bdaed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 14/31] fix: lock list of native timers when starting a timer
 in Qt dispatcher

---
 src/HsmEventDispatcherQt.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 4b79444..00c5495 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -95,9 +95,14 @@ void HsmEventDispatcherQt::startTimerImpl(const TimerID_t timerID, const unsigne
                               SC2INT(timerID),
                               intervalMs,
                               BOOL2INT(isSingleShot));
-    auto it = mNativeTimerHandlers.find(timerID);
+    bool isNewTimer = false;
+
+    {
+        CriticalSection cs(mRunningTimersSync);
+        isNewTimer = (mNativeTimerHandlers.end() == mNativeTimerHandlers.find(timerID));
+    }
 
-    if (mNativeTimerHandlers.end() == it) {
+    if (true == isNewTimer) {
         auto funcCreateTimer = [=]() {
             QTimer* newTimer = new QTimer(this);
 
-- 
2.43.0


From bafa889df5fa9f38ca8c0495595c3cfb3003c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 15/31] fix: don't notify GLibmm dispatcher which was not
 started

---
 src/HsmEventDispatcherGLibmm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 0c1081e..4fca026 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -146,7 +146,9 @@ void HsmEventDispatcherGLibmm::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
-    mDispatcher->emit();
+    if (mDispatcher) {
+        mDispatcher->emit();
+    }
 }
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
-- 
2.43.0


From 99aefb4c5d0145d430aff2817f5641cf653f4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 16/31] fix: close pipe when GLib dispatcher fails to start

---
 src/HsmEventDispatcherGLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 52443cd..0d0a85c 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -93,7 +93,7 @@ bool HsmEventDispatcherGLib::start() {
                 mReadChannel = nullptr;
             }
 
-            if ((-1) == mPipeFD[0]) {
+            if ((-1) != mPipeFD[0]) {
                 close(mPipeFD[0]);
                 close(mPipeFD[1]);
                 mPipeFD[0] = -1;
-- 
2.43.0


From 9547dc1a7743548439a1a4de071f7ce50d7bc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 17/31] fix: protect GLib pipe from interrupts since it's used
 by interrupt safe API

---
 include/hsmcpp/HsmEventDispatcherGLib.hpp | 2 +-
 src/HsmEventDispatcherGLib.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherGLib.hpp b/include/hsmcpp/HsmEventDispatcherGLib.hpp
index ab6d441..c83094b 100644
--- a/include/hsmcpp/HsmEventDispatcherGLib.hpp
+++ b/include/hsmcpp/HsmEventDispatcherGLib.hpp
@@ -109,7 +109,7 @@ private:
     GMainContext* mContext = nullptr;
     GIOChannel* mReadChannel = nullptr;
     GSource* mIoSource = nullptr;
-    std::mutex mPipeSync;
+    Mutex mPipeSync;
     int mPipeFD[2] = {-1, -1};
     bool mDispatchingIterationRunning = false;
     std::mutex mDispatchingSync;
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index 0d0a85c..df6ee5c 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -210,7 +210,7 @@ void HsmEventDispatcherGLib::onFreeTimerData(void* timerData) {
 }
 
 void HsmEventDispatcherGLib::notifyDispatcherAboutEvent() {
-    std::lock_guard<std::mutex> lck(mPipeSync);
+    CriticalSection lck(mPipeSync);
     char dummy = 1;
 
     // we just need to trigger the callback. there is no need to pass any real data there
-- 
2.43.0


From ccc27e461fbc49f59be01c9c3464ceb48eb258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 18/31] fix: STD dispatcher could miss a wakeup request or
 ignore enqueued actions

---
 include/hsmcpp/HsmEventDispatcherSTD.hpp |  2 ++
 src/HsmEventDispatcherSTD.cpp            | 36 +++++++++++++++---------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/hsmcpp/HsmEventDispatcherSTD.hpp b/include/hsmcpp/HsmEventDispatcherSTD.hpp
index c04001f..a12d64b 100644
--- a/include/hsmcpp/HsmEventDispatcherSTD.hpp
+++ b/include/hsmcpp/HsmEventDispatcherSTD.hpp
@@ -108,6 +108,8 @@ private:
     std::thread mTimersThread;
     // NOTE: ideally it would be better to use a semaphore here, but there are no semaphores in C++11
     ConditionVariable mEmitEvent;
+    Mutex mWakeupSync;
+    bool mWakeupRequested = false; // protected by mWakeupSync
     ConditionVariable mTimerEvent;
     bool mNotifiedTimersThread = false;
     std::map<TimerID_t, RunningTimerInfo> mRunningTimers; // protected by mRunningTimersSync
diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index 2f216a7..bf80fc9 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -5,6 +5,7 @@
 
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/CriticalSection.hpp"
+#include "hsmcpp/os/InterruptsFreeSection.hpp"
 
 namespace hsmcpp {
 
@@ -60,8 +61,8 @@ bool HsmEventDispatcherSTD::start() {
 
 void HsmEventDispatcherSTD::stop() {
     HSM_TRACE_CALL_DEBUG();
-    UniqueLock lck(mEmitSync);
 
+    // NOTE: mEmitSync must not be held here because handlers registry uses a different lock
     HsmEventDispatcherBase::stop();
     unregisterAllEventHandlers();
     notifyDispatcherAboutEvent();
@@ -125,6 +126,12 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
+    {
+        // NOTE: could be called from an interrupt (see enqueueEvent())
+        CriticalSection cs(mWakeupSync);
+        mWakeupRequested = true;
+    }
+
     mEmitEvent.notify();
 }
 
@@ -135,19 +142,20 @@ void HsmEventDispatcherSTD::doDispatching() {
         HsmEventDispatcherBase::dispatchPendingEvents();
 
         if (false == mStopDispatcher) {
-            UniqueLock lck(mEmitSync);
-
-            if (true == mPendingEvents.empty()) {
-                HSM_TRACE_DEBUG("wait for emit...");
-                // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
-                //       "return" statement belogs to a lamda function, not doDispatching.
-                // cppcheck-suppress misra-c2012-15.5
-                mEmitEvent.wait(lck, [=]() {
-                    // cppcheck-suppress misra-c2012-15.5 ; false-positive. "return" statement belongs to lambda function
-                    return (false == mPendingEvents.empty()) || (false == mEnqueuedEvents.empty()) || (true == mStopDispatcher);
-                });
-                HSM_TRACE_DEBUG("woke up. pending events=%lu", mPendingEvents.size());
-            }
+            // NOTE: interrupts must be blocked while holding mWakeupSync
+            InterruptsFreeSection interruptsBlock;
+            UniqueLock lck(mWakeupSync);
+
+            HSM_TRACE_DEBUG("wait for emit...");
+            // NOTE: false-positive. "A function should have a single point of exit at the end" is not vialated because
+            //       "return" statement belogs to a lamda function, not doDispatching.
+            // cppcheck-suppress misra-c2012-15.5
+            mEmitEvent.wait(lck, [=]() { return mWakeupRequested; });
+
+            // NOTE: condition variable releases the lock after waiting
+            lck.lock();
+            mWakeupRequested = false;
+            HSM_TRACE_DEBUG("woke up");
         }
     }
 
-- 
2.43.0


From 7d5d6262b704ea2cf4706cebe4d1212ba677481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 19/31] fix: deadlock and missed wakeups between timers thread
 and timer operations in STD dispatcher

---
 src/HsmEventDispatcherSTD.cpp | 59 ++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index bf80fc9..c31c8fe 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -164,18 +164,20 @@ void HsmEventDispatcherSTD::doDispatching() {
 
 void HsmEventDispatcherSTD::notifyTimersThread() {
     HSM_TRACE_CALL_DEBUG();
-    mNotifiedTimersThread = true;
+
+    {
+        CriticalSection cs(mRunningTimersSync);
+        mNotifiedTimersThread = true;
+    }
+
     mTimerEvent.notify();
 }
 
 void HsmEventDispatcherSTD::handleTimers() {
     HSM_TRACE_CALL_DEBUG();
-    Mutex timerEventSync;
-    UniqueLock lck(timerEventSync);
+    UniqueLock lck(mRunningTimersSync);
 
     while (false == mStopDispatcher) {
-        mRunningTimersSync.lock();
-
         if (false == mRunningTimers.empty()) {
             auto itTimeout = mRunningTimers.begin();
 
@@ -185,15 +187,11 @@ void HsmEventDispatcherSTD::handleTimers() {
                 }
             }
 
-            TimerID_t waitingTimerId = itTimeout->first;
+            const TimerID_t waitingTimerId = itTimeout->first;
+            const auto startedAt = itTimeout->second.startedAt;
             const int waitDurationMs = std::chrono::duration_cast<std::chrono::milliseconds>(itTimeout->second.elapseAfter -
                                                                                          std::chrono::steady_clock::now())
                                        .count();
-
-            // unlock after itTimeout value is not needed anymore
-            mRunningTimersSync.unlock();
-            // NOTE: make sure we don't use itTimeout value after this line
-
             bool waitResult = false;
 
             // if waitDurationMs <= 0 it means that timer already expired and we only need to trigger event
@@ -202,6 +200,9 @@ void HsmEventDispatcherSTD::handleTimers() {
                 //       "return" statement belogs to a lamda function, not doDispatching.
                 // cppcheck-suppress misra-c2012-15.5
                 waitResult = mTimerEvent.wait_for(lck, waitDurationMs, [&]() { return mNotifiedTimersThread; });
+                // NOTE: condition variable releases the lock after waiting
+                lck.lock();
+                // NOTE: make sure we don't use itTimeout value after this line
             }
 
             mNotifiedTimersThread = false;
@@ -210,22 +211,29 @@ void HsmEventDispatcherSTD::handleTimers() {
                 // timeout expired
 
                 // store wakeup time in case we'll need to calculate new elapseAfter value
-                // needed to avoid potential delays caused by CriticalSection and handleTimerEvent()
+                // needed to avoid potential delays caused by handleTimerEvent()
                 const auto wakeupTime = std::chrono::steady_clock::now();
-                CriticalSection lckExpired(mRunningTimersSync);
 
                 itTimeout = mRunningTimers.find(waitingTimerId);
 
-                if (itTimeout != mRunningTimers.end()) {
+                if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt)) {
+                    // NOTE: can't hold the lock because start and stop operations acquire locks in a different order
+                    lck.unlock();
                     const unsigned int nextIntervalMs = handleTimerEvent(waitingTimerId);
-
-                    if (nextIntervalMs > 0u) {
-                        // restart timer
-                        itTimeout->second.startedAt = wakeupTime;
-                        itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
-                    } else {
-                        // single shot timer. remove from queue
-                        mRunningTimers.erase(itTimeout);
+                    lck.lock();
+
+                    // timer could have been stopped or restarted while its event was being handled
+                    itTimeout = mRunningTimers.find(waitingTimerId);
+
+                    if ((itTimeout != mRunningTimers.end()) && (itTimeout->second.startedAt == startedAt)) {
+                        if (nextIntervalMs > 0u) {
+                            // restart timer
+                            itTimeout->second.startedAt = wakeupTime;
+                            itTimeout->second.elapseAfter = itTimeout->second.startedAt + std::chrono::milliseconds(nextIntervalMs);
+                        } else {
+                            // single shot timer. remove from queue
+                            mRunningTimers.erase(itTimeout);
+                        }
                     }
                 } else {
                     // do nothing
@@ -234,10 +242,11 @@ void HsmEventDispatcherSTD::handleTimers() {
                 // thread was woken up by start/stop operation. no need to do anything
             }
         } else {
-            mRunningTimersSync.unlock();
-
             // wait for timer events
-            mTimerEvent.wait(lck);
+            mTimerEvent.wait(lck, [&]() { return mNotifiedTimersThread; });
+            // NOTE: condition variable releases the lock after waiting
+            lck.lock();
+            mNotifiedTimersThread = false;
         }
     }
 
-- 
2.43.0


From 66bc0bbb9328e8bee72c109c9dd694a9abf2a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 20/31] fix: unblock threads waiting for sync transitions when
 HSM is released

---
 src/HsmImpl.cpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 6f9941d..c068283 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -186,6 +186,18 @@ void HierarchicalStateMachine::Impl::release() {
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
     }
+
+    // no one will process remaining events, so we must unblock everyone who is waiting for sync transitions
+    std::list<PendingEventInfo> abandonedEvents;
+
+    {
+        HSM_SYNC_EVENTS_QUEUE();
+        abandonedEvents.swap(mPendingEvents);
+    }
+
+    for (PendingEventInfo& pendingEvent : abandonedEvents) {
+        pendingEvent.releaseLock();
+    }
 }
 
 void HierarchicalStateMachine::Impl::registerFailedTransitionCallback(HsmTransitionFailedCallback_t onFailedTransition) {
@@ -415,6 +427,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
                               args.size());
 
     bool status = false;
+    bool isScheduled = false;
     auto dispatcherPtr = mDispatcher.lock();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -431,22 +444,28 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
         {
             HSM_SYNC_EVENTS_QUEUE();
 
-            if (true == clearQueue) {
-                clearPendingEvents();
-            }
+            // NOTE: no one will process new events if HSM is being released
+            if (false == mStopDispatching) {
+                if (true == clearQueue) {
+                    clearPendingEvents();
+                }
 
-            mPendingEvents.emplace_back(eventInfo);
+                mPendingEvents.emplace_back(eventInfo);
+                isScheduled = true;
+            }
         }
 
-        HSM_TRACE_DEBUG("transitionEx: emit");
-        dispatcherPtr->emitEvent(mEventsHandlerId);
+        if (true == isScheduled) {
+            HSM_TRACE_DEBUG("transitionEx: emit");
+            dispatcherPtr->emitEvent(mEventsHandlerId);
 
-        if (true == sync) {
-            HSM_TRACE_DEBUG("transitionEx: wait...");
-            status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
-        } else {
-            // always return true for async transitions
-            status = true;
+            if (true == sync) {
+                HSM_TRACE_DEBUG("transitionEx: wait...");
+                status = (HsmEventStatus::DONE_OK == eventInfo.wait(timeoutMs));
+            } else {
+                // always return true for async transitions
+                status = true;
+            }
         }
     } else {
         HSM_TRACE_ERROR("HSM is not initialized");
-- 
2.43.0


From 1dfce6e3d4e549917dc450230e2bba16d1b766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 21/31] fix: don't dispatch events while HSM is entering its
 initial state

---
 src/HsmImpl.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index c068283..af1e678 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -613,22 +613,31 @@ void HierarchicalStateMachine::Impl::handleStartup() {
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
         HSM_TRACE_DEBUG("state=<%s>", getStateName(mInitialState).c_str());
-        std::list<StateID_t> entryPoints;
 
-        (void)onStateEntering(mInitialState, VariantVector_t());
-        mActiveStates.emplace_back(mInitialState);
-        onStateChanged(mInitialState, VariantVector_t());
+        // NOTE: block dispatching while initial state is being entered because its callbacks and actions could already
+        //       generate events. they will be processed after startup is finished
+        if (false == mIsDispatching.test_and_set()) {
+            UniqueLock lk = mIsDispatching.lock();
+            std::list<StateID_t> entryPoints;
 
-        if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
-            PendingEventInfo entryPointTransitionEvent;
+            (void)onStateEntering(mInitialState, VariantVector_t());
+            mActiveStates.emplace_back(mInitialState);
+            onStateChanged(mInitialState, VariantVector_t());
 
-            entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
-            entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+            if (true == getEntryPoints(mInitialState, INVALID_HSM_EVENT_ID, VariantVector_t(), entryPoints)) {
+                PendingEventInfo entryPointTransitionEvent;
 
-            {
-                HSM_SYNC_EVENTS_QUEUE();
-                mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+                entryPointTransitionEvent.transitionType = TransitionBehavior::ENTRYPOINT;
+                entryPointTransitionEvent.id = INVALID_HSM_EVENT_ID;
+
+                {
+                    HSM_SYNC_EVENTS_QUEUE();
+                    mPendingEvents.emplace_front(std::move(entryPointTransitionEvent));
+                }
             }
+
+            mIsDispatching.clear();
+            mIsDispatching.notify();
         }
 
         bool hasPendingEvents = false;
-- 
2.43.0


From 614d417b1b625041b3f37fea79690c1ff3d46d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 22/31] fix: synchronize access to dispatcher reference between
 release() and other threads

---
 src/HsmImpl.cpp | 53 ++++++++++++++++++++++++++++++++-----------------
 src/HsmImpl.hpp |  6 +++++-
 2 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index af1e678..4c1274e 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -8,6 +8,7 @@
 #include "hsmcpp/IHsmEventDispatcher.hpp"
 #include "hsmcpp/logging.hpp"
 #include "hsmcpp/os/ConditionVariable.hpp"
+#include "hsmcpp/os/CriticalSection.hpp"
 #include "hsmcpp/os/LockGuard.hpp"
 #include "hsmcpp/os/os.hpp"
 
@@ -22,7 +23,6 @@
   #include <cstring>
 
   #include "hsmcpp/os/Mutex.hpp"
-  #include "hsmcpp/os/CriticalSection.hpp"
 
 // WIN, access
   #ifdef WIN32
@@ -96,7 +96,7 @@ void HierarchicalStateMachine::Impl::resetParent() {
 }
 
 void HierarchicalStateMachine::Impl::setInitialState(const StateID_t initialState) {
-    if (true == mDispatcher.expired()) {
+    if (false == isInitialized()) {
         mInitialState = initialState;
     }
 }
@@ -105,7 +105,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
     HSM_TRACE_CALL_DEBUG();
     bool result = false;
 
-    if (true == mDispatcher.expired()) {
+    if (false == isInitialized()) {
         auto dispatcherPtr = dispatcher.lock();
 
         // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -121,7 +121,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                 }
 
                 if (false == ptrInstance.expired()) {
-                    mDispatcher = dispatcher;
+                    setDispatcher(dispatcher);
 
                     createEventHandler(dispatcherPtr, ptrInstance);
                     createTimerHandler(dispatcherPtr, ptrInstance);
@@ -143,7 +143,7 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
                         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
                         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
                         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
-                        mDispatcher.reset();
+                        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());
                     }
                 }
             } else {
@@ -160,10 +160,14 @@ bool HierarchicalStateMachine::Impl::initialize(const std::weak_ptr<IHsmEventDis
 }
 
 std::weak_ptr<IHsmEventDispatcher> HierarchicalStateMachine::Impl::dispatcher() const {
+    CriticalSection cs(mDispatcherSync);
+
     return mDispatcher;
 }
 
 bool HierarchicalStateMachine::Impl::isInitialized() const {
+    CriticalSection cs(mDispatcherSync);
+
     return (false == mDispatcher.expired());
 }
 
@@ -173,15 +177,15 @@ void HierarchicalStateMachine::Impl::release() {
 
     disableHsmDebugging();
 
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
         dispatcherPtr->unregisterEventHandler(mEventsHandlerId);
         dispatcherPtr->unregisterEnqueuedEventHandler(mEnqueuedEventsHandlerId);
         dispatcherPtr->unregisterTimerHandler(mTimerHandlerId);
-        mDispatcher.reset();
-        mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
+        // NOTE: handler IDs must not be changed here because they could be still used by other threads
+        setDispatcher(std::weak_ptr<IHsmEventDispatcher>());
 
         // wait for current dispatching to finish if it's ongoing
         mIsDispatching.wait(true);
@@ -428,7 +432,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 
     bool status = false;
     bool isScheduled = false;
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -478,7 +482,7 @@ bool HierarchicalStateMachine::Impl::transitionExWithArgsArray(const EventID_t e
 bool HierarchicalStateMachine::Impl::transitionInterruptSafe(const EventID_t event) {
     bool res = false;
     // TODO: this part needs testing with real interrupts. Not sure if it's safe to use weak_ptr.lock()
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -507,7 +511,7 @@ bool HierarchicalStateMachine::Impl::isTransitionPossible(const EventID_t event,
 void HierarchicalStateMachine::Impl::startTimer(const TimerID_t timerID,
                                                 const unsigned int intervalMs,
                                                 const bool isSingleShot) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -516,7 +520,7 @@ void HierarchicalStateMachine::Impl::startTimer(const TimerID_t timerID,
 }
 
 void HierarchicalStateMachine::Impl::restartTimer(const TimerID_t timerID) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -525,7 +529,7 @@ void HierarchicalStateMachine::Impl::restartTimer(const TimerID_t timerID) {
 }
 
 void HierarchicalStateMachine::Impl::stopTimer(const TimerID_t timerID) {
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -535,7 +539,7 @@ void HierarchicalStateMachine::Impl::stopTimer(const TimerID_t timerID) {
 
 bool HierarchicalStateMachine::Impl::isTimerRunning(const TimerID_t timerID) {
     bool running = false;
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -548,6 +552,19 @@ bool HierarchicalStateMachine::Impl::isTimerRunning(const TimerID_t timerID) {
 // ============================================================================
 // PRIVATE
 // ============================================================================
+void HierarchicalStateMachine::Impl::setDispatcher(const std::weak_ptr<IHsmEventDispatcher>& dispatcher) {
+    CriticalSection cs(mDispatcherSync);
+
+    mDispatcher = dispatcher;
+}
+
+std::shared_ptr<IHsmEventDispatcher> HierarchicalStateMachine::Impl::getDispatcher() const {
+    // NOTE: could be called from an interrupt (see transitionInterruptSafe())
+    CriticalSection cs(mDispatcherSync);
+
+    return mDispatcher.lock();
+}
+
 void HierarchicalStateMachine::Impl::createEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr,
                                                         const std::weak_ptr<HierarchicalStateMachine::Impl>& ptrInstance) {
     // cppcheck-suppress misra-c2012-13.1 ; false-positive. this is a functor, not initializer list
@@ -608,7 +625,7 @@ void HierarchicalStateMachine::Impl::createEnqueuedEventHandler(
 
 void HierarchicalStateMachine::Impl::handleStartup() {
     HSM_TRACE_CALL_DEBUG_ARGS("mActiveStates.size=%ld", mActiveStates.size());
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr) {
@@ -659,7 +676,7 @@ void HierarchicalStateMachine::Impl::transitionSimple(const EventID_t event) {
 
 void HierarchicalStateMachine::Impl::dispatchEvents() {
     HSM_TRACE_CALL_DEBUG();
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
     if (dispatcherPtr && (false == mIsDispatching.test_and_set())) {
@@ -774,7 +791,7 @@ void HierarchicalStateMachine::Impl::onStateChanged(const StateID_t state, const
 
 void HierarchicalStateMachine::Impl::executeStateAction(const StateID_t state, const StateActionTrigger actionTrigger) {
     HSM_TRACE_CALL_DEBUG_ARGS("state=<%s>, actionTrigger=%d", getStateName(state).c_str(), SC2INT(actionTrigger));
-    auto dispatcherPtr = mDispatcher.lock();
+    auto dispatcherPtr = getDispatcher();
     auto itRange = mRegisteredActions.equal_range(std::make_pair(state, actionTrigger));
 
     // cppcheck-suppress misra-c2012-14.4 ; false-positive. std::shared_ptr has a bool() operator
@@ -1149,7 +1166,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
         }
 
         // stop processing other events if HSM was released
-        if (true == mDispatcher.expired()) {
+        if (false == isInitialized()) {
             res = HsmEventStatus::DONE_FAILED;
             break;
         }
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index bf8a29d..01645bc 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -100,6 +100,9 @@ public:
     void disableHsmDebugging();
 
 private:
+    void setDispatcher(const std::weak_ptr<IHsmEventDispatcher>& dispatcher);
+    std::shared_ptr<IHsmEventDispatcher> getDispatcher() const;
+
     void createEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr, const std::weak_ptr<Impl>& ptrInstance);
     void createTimerHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr, const std::weak_ptr<Impl>& ptrInstance);
     void createEnqueuedEventHandler(const std::shared_ptr<IHsmEventDispatcher>& dispatcherPtr,
@@ -199,7 +202,8 @@ private:
 
 private:
     HierarchicalStateMachine* mParent = nullptr;
-    std::weak_ptr<IHsmEventDispatcher> mDispatcher;  // protected by mParentSync
+    std::weak_ptr<IHsmEventDispatcher> mDispatcher;  // protected by mDispatcherSync
+    mutable Mutex mDispatcherSync;
     HandlerID_t mEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mEnqueuedEventsHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
     HandlerID_t mTimerHandlerId = INVALID_HSM_DISPATCHER_HANDLER_ID;
-- 
2.43.0


From 22fa6ff322ce6dbef426dca01d4cd8c8ecc9e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 23/31] fix: don't close debug log while dispatcher thread is
 writing to it

---
 src/HsmImpl.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 4c1274e..e4cbdaf 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -73,6 +73,14 @@ constexpr const char* HSM_TRACE_CLASS = "HierarchicalStateMachine";
 
 namespace hsmcpp {
 
+#ifdef HSMBUILD_DEBUGGING
+static Mutex& getHsmLogMutex() {
+    static Mutex logMutex;
+
+    return logMutex;
+}
+#endif  // HSMBUILD_DEBUGGING
+
 // ============================================================================
 // PUBLIC
 // ============================================================================
@@ -1736,6 +1744,7 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpP
 #ifdef HSMBUILD_DEBUGGING
     bool res = false;
     bool isNewLog = (access(dumpPath.c_str(), F_OK) != 0);
+    CriticalSection logSync(getHsmLogMutex());
 
     if (nullptr != mHsmLogFile.open(dumpPath.c_str(), std::ios::out | std::ios::app)) {
         mHsmLog = std::make_shared<std::ostream>(&mHsmLogFile);
@@ -1756,6 +1765,9 @@ bool HierarchicalStateMachine::Impl::enableHsmDebugging(const std::string& dumpP
 
 void HierarchicalStateMachine::Impl::disableHsmDebugging() {
 #ifdef HSMBUILD_DEBUGGING
+    // NOTE: dispatcher thread could be writing to the log at the moment
+    CriticalSection logSync(getHsmLogMutex());
+
     mHsmLogFile.close();
 #endif
 }
@@ -1767,10 +1779,9 @@ void HierarchicalStateMachine::Impl::logHsmAction(const HsmLogAction action,
                                                   const bool hasFailed,
                                                   const VariantVector_t& args) {
 #ifdef HSMBUILD_DEBUGGING
-    if (true == mHsmLogFile.is_open()) {
-        static Mutex logMutex;
-        CriticalSection logSync(logMutex);
+    CriticalSection logSync(getHsmLogMutex());
 
+    if (true == mHsmLogFile.is_open()) {
         static const std::map<HsmLogAction, std::string> actionsMap = {
             std::make_pair(HsmLogAction::IDLE, "idle"),
             std::make_pair(HsmLogAction::TRANSITION, "transition"),
-- 
2.43.0


From dd322ebc241ff2f832ac4080298bff475484735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 24/31] fix: keep parallel states active and execute callbacks
 once during history transitions

---
 src/HsmImpl.cpp | 11 ++++++++---
 src/HsmImpl.hpp |  1 -
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index e4cbdaf..862c190 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1178,6 +1178,11 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
             res = HsmEventStatus::DONE_FAILED;
             break;
         }
+
+        // forced transitions don't depend on active states and must be executed only once
+        if (TransitionBehavior::FORCED == event.transitionType) {
+            break;
+        }
     }
 
     if (mFailedTransitionCallback && ((HsmEventStatus::DONE_FAILED == res) || (HsmEventStatus::CANCELED == res))) {
@@ -1189,7 +1194,6 @@ HsmEventStatus HierarchicalStateMachine::Impl::doTransition(const PendingEventIn
 }
 
 HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const PendingEventInfo& event,
-                                                                         const StateID_t fromState,
                                                                          const TransitionInfo& curTransition,
                                                                          const std::list<StateID_t>& exitedStates) {
     HSM_TRACE_CALL_DEBUG();
@@ -1210,7 +1214,8 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
     }
 
     if (true == onStateEntering(curTransition.destinationState, event.getArgs())) {
-        if (true == replaceActiveState(fromState, curTransition.destinationState)) {
+        // NOTE: in case of history transitions source state is different from the one which is currently being processed
+        if (true == replaceActiveState(curTransition.fromState, curTransition.destinationState)) {
             onStateChanged(curTransition.destinationState, event.getArgs());
         }
 
@@ -1606,7 +1611,7 @@ HsmEventStatus HierarchicalStateMachine::Impl::handleSingleTransition(const Stat
                 // everything except internal self-transitions
                 if ((curTransition.fromState != curTransition.destinationState) ||
                     (TransitionType::EXTERNAL_TRANSITION == curTransition.transitionType)) {
-                    res = processExternalTransition(event, fromState, curTransition, exitedStates);
+                    res = processExternalTransition(event, curTransition, exitedStates);
                 }
             }
         } else {
diff --git a/src/HsmImpl.hpp b/src/HsmImpl.hpp
index 01645bc..e6dda68 100644
--- a/src/HsmImpl.hpp
+++ b/src/HsmImpl.hpp
@@ -147,7 +147,6 @@ private:
     HsmEventStatus doTransition(const PendingEventInfo& event);
 
     HsmEventStatus processExternalTransition(const PendingEventInfo& event,
-                                             const StateID_t fromState,
                                              const TransitionInfo& curTransition,
                                              const std::list<StateID_t>& exitedStates);
     bool determineTargetState(const PendingEventInfo& event,
-- 
2.43.0


From 2c1acc9d1997a0d63f4d3ba0f22d0e1f4c0a9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 25/31] fix: restore states in correct order when transition
 was blocked

---
 src/HsmImpl.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 862c190..e5060f3 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1254,11 +1254,12 @@ HsmEventStatus HierarchicalStateMachine::Impl::processExternalTransition(const P
             }
         }
     } else {
-        for (const StateID_t& curState : exitedStates) {
+        // states were exited starting from children, so they must be restored in reverse order
+        for (auto it = exitedStates.rbegin(); it != exitedStates.rend(); ++it) {
             // to prevent infinite loops we don't allow state to cancel transition
-            (void)onStateEntering(curState, VariantVector_t());
-            (void)addActiveState(curState);
-            onStateChanged(curState, VariantVector_t());
+            (void)onStateEntering(*it, VariantVector_t());
+            (void)addActiveState(*it);
+            onStateChanged(*it, VariantVector_t());
         }
     }
 
@@ -1397,12 +1398,13 @@ bool HierarchicalStateMachine::Impl::executeExitTransition(const PendingEventInf
             }
             // if one of the states blocked ongoing transition we need to rollback
             else {
-                for (const auto& curState : outExitedStates) {
-                    mActiveStates.remove(curState);
+                // states were exited starting from children, so they must be restored in reverse order
+                for (auto it = outExitedStates.rbegin(); it != outExitedStates.rend(); ++it) {
+                    mActiveStates.remove(*it);
                     // to prevent infinite loops we don't allow state to cancel transition
-                    (void)onStateEntering(curState, VariantVector_t());
-                    mActiveStates.emplace_back(curState);
-                    onStateChanged(curState, VariantVector_t());
+                    (void)onStateEntering(*it, VariantVector_t());
+                    mActiveStates.emplace_back(*it);
+                    onStateChanged(*it, VariantVector_t());
                 }
 
                 // exit was blocked, so other matching transitions must not be processed
-- 
2.43.0


From 4a59557935f69cfe3d9a0f0ed4633f0c13f6d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 26/31] fix: isTransitionPossible() mixed up transitions of
 different pending events

---
 src/HsmImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index e5060f3..5a9d46a 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1035,6 +1035,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     for (auto it = pendingEvents.begin(); (it != pendingEvents.end()) && (true == possible); ++it) {
         nextEvent = *it;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
 
         if (true == possible) {
@@ -1049,6 +1050,7 @@ bool HierarchicalStateMachine::Impl::checkTransitionPossibility(const StateID_t
 
     if (true == possible) {
         nextEvent = event;
+        possibleTransitions.clear();
         possible = findTransitionTarget(currentState, nextEvent, args, true, possibleTransitions);
     }
 
-- 
2.43.0


From f005cfef634621afd80380234d3ef902989f3bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 27/31] fix: timer started again right after it expired was
 lost (GLib, GLibmm, Qt)

---
 src/HsmEventDispatcherBase.cpp   |  3 +++
 src/HsmEventDispatcherGLib.cpp   |  6 ++----
 src/HsmEventDispatcherGLibmm.cpp | 19 ++++++++++++++-----
 src/HsmEventDispatcherQt.cpp     |  5 ++---
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/HsmEventDispatcherBase.cpp b/src/HsmEventDispatcherBase.cpp
index 62082fe..1cf10cc 100644
--- a/src/HsmEventDispatcherBase.cpp
+++ b/src/HsmEventDispatcherBase.cpp
@@ -177,6 +177,9 @@ void HsmEventDispatcherBase::startTimer(const HandlerID_t handlerID,
                 newTimer.isSingleShot = isSingleShot;
 
                 mActiveTimers[timerID] = newTimer;
+
+                // expired singleshot timer is not active anymore, but its native timer exists until the handler returns
+                stopTimerImpl(timerID);
                 startTimerImpl(timerID, intervalMs, isSingleShot);
             }
         }
diff --git a/src/HsmEventDispatcherGLib.cpp b/src/HsmEventDispatcherGLib.cpp
index df6ee5c..eb2aa47 100644
--- a/src/HsmEventDispatcherGLib.cpp
+++ b/src/HsmEventDispatcherGLib.cpp
@@ -192,12 +192,10 @@ gboolean HsmEventDispatcherGLib::onTimerEvent(const TimerData_t* timerData) {
             CriticalSection lckExpired(timerData->first->mRunningTimersSync);
             auto itTimer = timerData->first->mNativeTimerHandlers.find(timerData->second);
 
-            if (timerData->first->mNativeTimerHandlers.end() != itTimer) {
+            // NOTE: timer could have been stopped or started again while its event was being handled
+            if ((timerData->first->mNativeTimerHandlers.end() != itTimer) && (g_main_current_source() == itTimer->second)) {
                 g_source_unref(itTimer->second);
                 timerData->first->mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_DEF();
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
diff --git a/src/HsmEventDispatcherGLibmm.cpp b/src/HsmEventDispatcherGLibmm.cpp
index 4fca026..57ef574 100644
--- a/src/HsmEventDispatcherGLibmm.cpp
+++ b/src/HsmEventDispatcherGLibmm.cpp
@@ -153,16 +153,25 @@ void HsmEventDispatcherGLibmm::notifyDispatcherAboutEvent() {
 
 bool HsmEventDispatcherGLibmm::onTimerEvent(const TimerID_t timerID) {
     HSM_TRACE_CALL_DEBUG_ARGS("timerID=%d", SC2INT(timerID));
-    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+    sigc::connection expiredTimer;
 
-    if (false == restartTimer) {
+    {
         CriticalSection cs(mRunningTimersSync);
         auto itTimer = mNativeTimerHandlers.find(timerID);
 
         if (mNativeTimerHandlers.end() != itTimer) {
-            mNativeTimerHandlers.erase(itTimer);
-        } else {
-            HSM_TRACE_ERROR("unexpected error. timer not found");
+            expiredTimer = itTimer->second;
+        }
+    }
+
+    const bool restartTimer = (handleTimerEvent(timerID) > 0);
+
+    if (false == restartTimer) {
+        CriticalSection cs(mRunningTimersSync);
+
+        // NOTE: timer could have been stopped or started again while its event was being handled
+        if (true == expiredTimer.connected()) {
+            mNativeTimerHandlers.erase(timerID);
         }
     }
 
diff --git a/src/HsmEventDispatcherQt.cpp b/src/HsmEventDispatcherQt.cpp
index 00c5495..b21c81b 100644
--- a/src/HsmEventDispatcherQt.cpp
+++ b/src/HsmEventDispatcherQt.cpp
@@ -161,11 +161,10 @@ void HsmEventDispatcherQt::onTimerEvent() {
             CriticalSection cs(mRunningTimersSync);
             auto itTimer = mNativeTimerHandlers.find(timerID);
 
-            if (mNativeTimerHandlers.end() != itTimer) {
+            // NOTE: timer could have been stopped or started again while its event was being handled
+            if ((mNativeTimerHandlers.end() != itTimer) && (ptrTimer == itTimer->second)) {
                 itTimer->second->deleteLater();
                 mNativeTimerHandlers.erase(itTimer);
-            } else {
-                HSM_TRACE_ERROR("unexpected error. timer not found");
             }
         }
     }
-- 
2.43.0


From d9bc6a07faa3fac4c863e96429f5d7251aad5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 28/31] fix: interrupt handler could wait for itself while the
 dispatcher was being woken up (STD)

---
 src/HsmEventDispatcherSTD.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/HsmEventDispatcherSTD.cpp b/src/HsmEventDispatcherSTD.cpp
index c31c8fe..9a8cb65 100644
--- a/src/HsmEventDispatcherSTD.cpp
+++ b/src/HsmEventDispatcherSTD.cpp
@@ -126,12 +126,10 @@ void HsmEventDispatcherSTD::stopTimerImpl(const TimerID_t timerID) {
 }
 
 void HsmEventDispatcherSTD::notifyDispatcherAboutEvent() {
-    {
-        // NOTE: could be called from an interrupt (see enqueueEvent())
-        CriticalSection cs(mWakeupSync);
-        mWakeupRequested = true;
-    }
+    // NOTE: could be called from an interrupt (see enqueueEvent()), which must not happen in the middle of notify()
+    CriticalSection cs(mWakeupSync);
 
+    mWakeupRequested = true;
     mEmitEvent.notify();
 }
 
-- 
2.43.0


From 70d5dc787390a2a5987a8513d9a635c3b9d4b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 29/31] fix: Variant: never compare custom values of different
 types

Two CUSTOM variants holding different C++ types were compared by reading
one as the other. Compare values only if both hold the same type.
---
 include/hsmcpp/variant.hpp | 5 +++--
 src/variant.cpp            | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 41697c8..90d8dff 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -89,7 +89,8 @@ private:
      */
     // using MemoryHandlerFunc_t = std::function<void*(void*, const bool)>;
     using MemoryAllocatorFunc_t = std::function<std::shared_ptr<void>(const void*)>;
-    using CompareFunc_t = std::function<int(const void*, const void*)>;
+    // NOTE: plain pointer (one per stored type), so it can also be used to check that two objects hold the same type
+    using CompareFunc_t = int (*)(const void*, const void*);
 
 public:
     /**
@@ -674,7 +675,7 @@ private:
     Type type = Type::UNKNOWN;
     std::shared_ptr<void> data;
     MemoryAllocatorFunc_t memoryAllocator;
-    CompareFunc_t compareOperator;
+    CompareFunc_t compareOperator = nullptr;
 };
 
 template <typename T>
diff --git a/src/variant.cpp b/src/variant.cpp
index a249742..6edf561 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -148,9 +148,10 @@ Variant& Variant::operator=(Variant&& v) noexcept {
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-        compareOperator = std::move(v.compareOperator);
+        compareOperator = v.compareOperator;
 
         v.type = Type::UNKNOWN;
+        v.compareOperator = nullptr;
     }
 
     return *this;
@@ -177,7 +178,7 @@ bool Variant::operator>(const Variant& val) const {
             } else {
                 isGreater = toInt64() > val.toInt64();
             }
-        } else if (type == val.type) {
+        } else if ((type == val.type) && (compareOperator == val.compareOperator)) {
             isGreater = (1 == compareOperator(data.get(), val.data.get()));
         } else {
             // do nothing
@@ -215,7 +216,7 @@ bool Variant::operator==(const Variant& val) const {
                 } else {
                     equal = (toInt64() == val.toInt64());
                 }
-            } else if (val.type == type) {
+            } else if ((val.type == type) && (val.compareOperator == compareOperator)) {
                 equal = (0 == compareOperator(data.get(), val.data.get()));
             } else {
                 // do nothing
-- 
2.43.0


From 671e3f4d908eab5e004090fe216e69ef084df188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 30/31] fix: Variant: assigning a value stored inside of the
 target

The source was still read after the old value of the target, which could
own it, had been released. Keep the old value until the source is copied.
---
 include/hsmcpp/variant.hpp | 3 +++
 src/variant.cpp            | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/hsmcpp/variant.hpp b/include/hsmcpp/variant.hpp
index 90d8dff..a4012b4 100644
--- a/include/hsmcpp/variant.hpp
+++ b/include/hsmcpp/variant.hpp
@@ -865,6 +865,9 @@ Variant::Variant(const T& v, const Type t) {
 
 template <typename T>
 void Variant::assign(const T& v, const Type t) {
+    // NOTE: v could be stored inside of this object. keep it alive until it's copied
+    const std::shared_ptr<void> previousData = data;
+
     freeMemory();
     createMemoryAllocator<T>();
     type = t;
diff --git a/src/variant.cpp b/src/variant.cpp
index 6edf561..1aa1492 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -131,6 +131,9 @@ Variant& Variant::operator=(const char* v) {
 Variant& Variant::operator=(const Variant& v) {
     if (false == isSameObject(v)) {
         if ((Type::UNKNOWN != v.type) && (v.memoryAllocator)) {
+            // NOTE: v could be stored inside of this object. keep it alive until everything is copied
+            const std::shared_ptr<void> previousData = data;
+
             data = v.memoryAllocator(v.data.get());
             type = v.type;
             memoryAllocator = v.memoryAllocator;
@@ -145,6 +148,9 @@ Variant& Variant::operator=(const Variant& v) {
 
 Variant& Variant::operator=(Variant&& v) noexcept {
     if (false == isSameObject(v)) {
+        // NOTE: v could be stored inside of this object. keep it alive until everything is moved
+        const std::shared_ptr<void> previousData = std::move(data);
+
         data = std::move(v.data);
         type = v.type;
         memoryAllocator = std::move(v.memoryAllocator);
-- 
2.43.0


From 3584b97c8771e8543e522a55a3fcecc7aaee15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 31/31] fix: deep history of parallel states executed entry
 points of states whose substates were restored

---
 src/HsmImpl.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/HsmImpl.cpp b/src/HsmImpl.cpp
index 5a9d46a..fc33765 100644
--- a/src/HsmImpl.cpp
+++ b/src/HsmImpl.cpp
@@ -1444,7 +1444,6 @@ bool HierarchicalStateMachine::Impl::processHistoryTransition(const PendingEvent
 void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<StateID_t>& previousActiveStates,
                                                                       const PendingEventInfo& event,
                                                                       const StateID_t destinationState) {
-    StateID_t prevChildState = INVALID_HSM_STATE_ID;
     PendingEventInfo historyTransitionEvent = event;
 
     historyTransitionEvent.transitionType = TransitionBehavior::FORCED;
@@ -1454,18 +1453,25 @@ void HierarchicalStateMachine::Impl::transitionToPreviousActiveStates(std::list<
         HSM_SYNC_EVENTS_QUEUE();
 
         for (const StateID_t prevState : previousActiveStates) {
-            if ((INVALID_HSM_STATE_ID != prevChildState) && (true == isSubstateOf(prevState, prevChildState))) {
-                if (false == historyTransitionEvent.forcedTransitionsInfo->empty()) {
-                    mPendingEvents.push_front(historyTransitionEvent);
-                }
-
+            // entry points must be ignored if substates of this state are going to be restored too
+            const bool hasStoredSubstates =
+                std::any_of(previousActiveStates.begin(), previousActiveStates.end(), [this, prevState](const StateID_t state) {
+                    return isSubstateOf(prevState, state);
+                });
+            const std::list<TransitionInfo>& curTransitions = *historyTransitionEvent.forcedTransitionsInfo;
+            const bool isParentState =
+                std::any_of(curTransitions.begin(), curTransitions.end(), [this, prevState](const TransitionInfo& info) {
+                    return isSubstateOf(prevState, info.destinationState);
+                });
+
+            // parent states must be entered before their substates
+            if ((false == curTransitions.empty()) &&
+                ((true == isParentState) || (hasStoredSubstates != historyTransitionEvent.ignoreEntryPoints))) {
+                mPendingEvents.push_front(historyTransitionEvent);
                 historyTransitionEvent.forcedTransitionsInfo = std::make_shared<std::list<TransitionInfo>>();
-                historyTransitionEvent.ignoreEntryPoints = true;
-            } else {
-                historyTransitionEvent.ignoreEntryPoints = false;
             }
 
-            prevChildState = prevState;
+            historyTransitionEvent.ignoreEntryPoints = hasStoredSubstates;
             historyTransitionEvent.forcedTransitionsInfo->emplace_back(destinationState,
                                                                        prevState,
                                                                        TransitionType::EXTERNAL_TRANSITION,
-- 
2.43.0

