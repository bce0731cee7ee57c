From d2615711753bbbe4dacd6993ae18c435d10841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 1/6] fix: PointerRepository::searchId must ignore unregistered
 segments

After unregisterPtr the stale end address of a segment still took part in the
search (with base address null), so that any pointer below it was attributed to
the removed segment and got an offset which is meaningless in other processes.
---
 .../memory/include/iox/detail/pointer_repository.inl          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..3d736a9 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -101,9 +101,9 @@ inline id_t PointerRepository<id_t, ptr_t, CAPACITY>::searchId(const ptr_t ptr)
 {
     for (id_t id{1U}; id <= m_maxRegistered; ++id)
     {
-        // return first id where the ptr is in the corresponding interval
+        // return first registered id where the ptr is in the corresponding interval
         // AXIVION Next Construct AutosarC++19_03-M5.14.1 : False positive. vector::operator[](index) has no side-effect when index is less than vector size which is guaranteed by PointerRepository design
-        if ((ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
+        if ((m_info[id].basePtr != nullptr) && (ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
         {
             return id;
         }
-- 
2.43.0


From 7f35ab623bf7b53aa210acf710b76059088df823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:55 +0000
Subject: [PATCH 2/6] fix: BumpAllocator::allocate must not accept a size that
 overflows

'alignedPosition + size' wrapped around for very large sizes, so that the
allocation was reported as successful although it does not fit.
---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..336f6e1 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -48,13 +48,13 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
 
     void* allocation{nullptr};
 
-    const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    // compare with the remaining length since 'alignedPosition + size' might overflow
+    if (m_length >= alignedPosition && size <= m_length - alignedPosition)
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
         allocation = reinterpret_cast<void*>(m_startAddress + alignedPosition);
-        m_currentPosition = nextPosition;
+        m_currentPosition = alignedPosition + size;
     }
     else
     {
-- 
2.43.0


From 8aa133a2582e30e86d1b1b687c63e04ba14d8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:09 +0000
Subject: [PATCH 3/6] fix: single producer subscriber must tolerate STOP_OFFER
 while waiting for an offer

---
 .../source/popo/ports/subscriber_port_single_producer.cpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp b/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
index 5611e1d..df158bf 100644
--- a/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
+++ b/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
@@ -129,6 +129,12 @@ optional<capro::CaproMessage> SubscriberPortSingleProducer::dispatchCaProMessage
         // No state change
         return nullopt_t();
     }
+    else if ((capro::CaproMessageType::STOP_OFFER == caProMessage.m_type)
+             && (SubscribeState::WAIT_FOR_OFFER == currentSubscriptionState))
+    {
+        // No state change, e.g. the publisher rejected the subscription since it reached its maximum of subscribers
+        return nullopt_t();
+    }
     else
     {
         IOX_REPORT_FATAL(PoshError::POPO__CAPRO_PROTOCOL_ERROR);
-- 
2.43.0


From 3937c0ace24e5f9920507e15199c91210ab5d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 4/6] fix: do not send STOP_OFFER to clients which are not
 connected to the server

---
 iceoryx_posh/source/roudi/port_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..3a8c78e 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -636,6 +636,14 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
+            // STOP_OFFER is only relevant for clients which are connected to the server; for all other states it would
+            // be a CaPro protocol violation
+            if (message.m_type == capro::CaproMessageType::STOP_OFFER
+                && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+            {
+                continue;
+            }
+
             // send OFFER/STOP_OFFER to client
             auto clientResponse = clientPort.dispatchCaProMessageAndGetPossibleResponse(message);
 
-- 
2.43.0


From 75ed24415102c1686408c8f86f66fd75eea995ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:21 +0000
Subject: [PATCH 5/6] fix: ServiceRegistry must announce every removal of a
 publisher or server

---
 iceoryx_posh/source/roudi/service_registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..22f7809 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,12 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->publisherCount == 0U && entry->serverCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
@@ -121,12 +121,12 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->serverCount == 0U && entry->publisherCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
-- 
2.43.0


From 38a29dbf400e3e24a926f5e4a200e55c089027b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 6/6] fix: keep WaitSet notifications tied to their trigger and
 do not block on satisfied states

The notification of an attached event which is not yet reported stayed in the
WaitSet when the event was detached; another event attached afterwards got the
same trigger index and was reported without ever being triggered.

When a notification was collected between setting the flag of the trigger and
setting the overall notified flag, the next wait blocked although a state based
trigger was still satisfied.
---
 .../iceoryx_posh/internal/popo/wait_set.inl    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..f3139a4 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -305,6 +305,19 @@ inline void WaitSet<Capacity>::removeTrigger(const uint64_t uniqueTriggerId) noe
         {
             trigger->invalidate();
             trigger.reset();
+
+            // a notification which is not yet reported must not be attributed to the next trigger with this index
+            this->acquireNotifications(
+                [this] { return this->m_conditionListener.timedWait(units::Duration::fromSeconds(0)); });
+            for (auto iter = m_activeNotifications.begin(); iter != m_activeNotifications.end(); ++iter)
+            {
+                if (*iter == uniqueTriggerId)
+                {
+                    m_activeNotifications.erase(iter);
+                    break;
+                }
+            }
+
             IOX_ENFORCE(m_indexRepository.push(uniqueTriggerId), "Released trigger ID to the index repository!");
             return;
         }
@@ -388,7 +401,10 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // must not block since there could be state based triggers whose condition is still satisfied and the
+        // notification could be already collected
+        this->acquireNotifications(
+            [this] { return this->m_conditionListener.timedWait(units::Duration::fromSeconds(0)); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
-- 
2.43.0

