From 6a343038fbbdfcd4e78e3061c807caf89d83f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:06 +0000
Subject: [PATCH 01/40] fix: report lost chunks when the history handed to a
 new subscriber overflows its queue

ChunkDistributor::tryAddQueue ignored the result of pushing a history chunk. When the history of one or several
publishers does not fit into the queue of the new subscriber, samples were dropped without hasMissedData() telling so.
---
 .../internal/popo/building_blocks/chunk_distributor.inl      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 246cfe9..9bda3d6 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -82,7 +82,10 @@ ChunkDistributor<ChunkDistributorDataType>::tryAddQueue(not_null<ChunkQueueData_
                 (requestedHistory <= currChunkHistorySize) ? currChunkHistorySize - requestedHistory : 0u;
             for (auto i = startIndex; i < currChunkHistorySize; ++i)
             {
-                pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk());
+                if (!pushToQueue(queueToAdd, getMembers()->m_history[i].cloneToSharedChunk()))
+                {
+                    ChunkQueuePusher_t(queueToAdd).lostAChunk();
+                }
             }
 
             return ok();
-- 
2.43.0


From 072edac324d66b8c87c28743b1c8044f12e2cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:58 +0000
Subject: [PATCH 02/40] fix: do not dispatch a server's STOP_OFFER to clients
 which are not connected to it

A STOP_OFFER in the states NOT_CONNECTED or WAIT_FOR_OFFER is a protocol violation for the client port and
terminates RouDi. It was sent whenever a server stopped its offer or was destroyed while a compatible client
existed which had not requested a connection or could not be connected since the server's limit was reached.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..f4ce0da 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -636,6 +636,14 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
+            // a STOP_OFFER concerns only connected clients; it is not part of the protocol of clients which did not
+            // request a connection or which are (still) waiting for an OFFER, e.g. since the server had no room for them
+            if (message.m_type == capro::CaproMessageType::STOP_OFFER
+                && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+            {
+                continue;
+            }
+
             // send OFFER/STOP_OFFER to client
             auto clientResponse = clientPort.dispatchCaProMessageAndGetPossibleResponse(message);
 
-- 
2.43.0


From 79e53ebaf117852ea6845c076f09a045835b916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:34 +0000
Subject: [PATCH 03/40] fix: report too many held requests also when the server
 does not offer

Taking a request while too many requests are held drops the request. When the server did not offer, this was
reported as 'no pending requests' although a pending request was dropped.
---
 iceoryx_posh/source/popo/ports/server_port_user.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/popo/ports/server_port_user.cpp b/iceoryx_posh/source/popo/ports/server_port_user.cpp
index d242d80..2e270db 100644
--- a/iceoryx_posh/source/popo/ports/server_port_user.cpp
+++ b/iceoryx_posh/source/popo/ports/server_port_user.cpp
@@ -45,7 +45,7 @@ expected<const RequestHeader*, ServerRequestResult> ServerPortUser::getRequest()
 
     if (getChunkResult.has_error())
     {
-        if (!isOffered())
+        if (getChunkResult.error() == ChunkReceiveResult::NO_CHUNK_AVAILABLE && !isOffered())
         {
             return err(ServerRequestResult::NO_PENDING_REQUESTS_AND_SERVER_DOES_NOT_OFFER);
         }
-- 
2.43.0


From 85c8db02d8585ff3432c1f74ce7af129d7d6dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:33 +0000
Subject: [PATCH 04/40] fix: add a delivered chunk to the history before a new
 subscriber can join

A subscriber which was added between the delivery of a chunk and its insertion
into the history got the chunk neither directly nor from the history.
---
 .../internal/popo/building_blocks/chunk_distributor.inl     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 9bda3d6..a04479d 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -173,6 +173,10 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                 }
             }
         }
+
+        // must happen in the same critical section as the first delivery; otherwise a queue which is added in between
+        // would get the chunk neither directly nor from the history
+        addToHistoryWithoutDelivery(chunk);
     }
 
     // busy waiting until every queue is served
@@ -224,8 +228,6 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
         }
     }
 
-    addToHistoryWithoutDelivery(chunk);
-
     return numberOfQueuesTheChunkWasDeliveredTo;
 }
 
-- 
2.43.0


From b95c3228df40f421c81666123b447899ba4286b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 05/40] fix: do not block in WaitSet::wait while a state based
 trigger is satisfied

When a notification was collected by a wait call before the notifier set the
'was notified' flag, the next call of wait waited for a further notification
although an attached state was already satisfied.
---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..f3a374b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -388,7 +388,8 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // must not block: the notification might already have been collected and a state might still be satisfied
+        this->acquireNotifications([this] { return this->m_conditionListener.timedWait(units::Duration::zero()); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
-- 
2.43.0


From a7477ad73c487443361a7d5e54462b15722d983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:09 +0000
Subject: [PATCH 06/40] fix: do not hide a notification that arrives while
 WaitSet collects notifications

The 'was notified' flag was reset after the active notifications were read. A
notification in between was only reported after all attached states ceased to
be satisfied.
---
 .../source/popo/building_blocks/condition_listener.cpp        | 4 +++-
 .../source/popo/building_blocks/condition_notifier.cpp        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..488393d 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // reset before the notifications are collected, otherwise a notification which arrives in between is hidden
+        getMembers()->m_wasNotified.exchange(false, std::memory_order_acq_rel);
+
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -109,7 +112,6 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
     getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
diff --git a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
index 7174331..e849582 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp
@@ -39,7 +39,7 @@ ConditionNotifier::ConditionNotifier(ConditionVariableData& condVarDataRef, cons
 void ConditionNotifier::notify() noexcept
 {
     getMembers()->m_activeNotifications[m_notificationIndex].store(true, std::memory_order_release);
-    getMembers()->m_wasNotified.store(true, std::memory_order_relaxed);
+    getMembers()->m_wasNotified.store(true, std::memory_order_release);
     getMembers()->m_semaphore->post().or_else(
         [](auto) { IOX_REPORT_FATAL(PoshError::POPO__CONDITION_NOTIFIER_SEMAPHORE_CORRUPT_IN_NOTIFY); });
 }
-- 
2.43.0


From b35c3f5645ff8f505b5482f4c1bd0ea932c8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 07/40] fix: publish the service registry when only one of both
 patterns of a service vanishes

---
 iceoryx_posh/source/roudi/service_registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..22f7809 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,12 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->publisherCount == 0U && entry->serverCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
@@ -121,12 +121,12 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
+            m_dataChanged = true;
             if (--entry->serverCount == 0U && entry->publisherCount == 0)
             {
                 entry.reset();
                 // reuse the slot in the next insertion
                 m_freeIndex = index;
-                m_dataChanged = true;
             }
         }
     }
-- 
2.43.0


From 225ec5a3b161ca9e5708aed0e5c46664f5c887b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 08/40] fix: terminate names of maximum length in the C service
 description

---
 .../source/cpp2c_service_description_translation.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
index 1938d0b..7d283d1 100644
--- a/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
+++ b/iceoryx_binding_c/source/cpp2c_service_description_translation.cpp
@@ -18,7 +18,7 @@
 
 iox_service_description_t TranslateServiceDescription(const iox::capro::ServiceDescription& serviceDescription) noexcept
 {
-    iox_service_description_t retVal;
+    iox_service_description_t retVal{};
 
 #if defined(__GNUC__) && __GNUC__ >= 8
 #pragma GCC diagnostic push
-- 
2.43.0


From c37c018f411536b583f3a66710a161f9c26ef8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 09/40] fix: initialise missedServices of
 iox_service_discovery_find_service

---
 iceoryx_binding_c/source/c_service_discovery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_binding_c/source/c_service_discovery.cpp b/iceoryx_binding_c/source/c_service_discovery.cpp
index 7765076..d0c280e 100644
--- a/iceoryx_binding_c/source/c_service_discovery.cpp
+++ b/iceoryx_binding_c/source/c_service_discovery.cpp
@@ -73,6 +73,7 @@ uint64_t iox_service_discovery_find_service(iox_service_discovery_t const self,
         maybeEvent.emplace(TruncateToCapacity, event);
     }
 
+    *missedServices = 0U;
     uint64_t currentSize = 0U;
     auto filter = [&](const capro::ServiceDescription& s) {
         if (currentSize < serviceContainerCapacity)
-- 
2.43.0


From 3f14e6630f289071e2695f9552fadcee9a9d058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 10/40] fix: construct the element when a value is assigned to
 an empty variant

---
 iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
index 4dd8f8e..5ddaf73 100644
--- a/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
+++ b/iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl
@@ -150,10 +150,11 @@ variant<Types...>::operator=(T&& rhs) noexcept
 {
     if (m_type_index == INVALID_VARIANT_INDEX)
     {
+        // there is no element which could be assigned to; it has to be constructed
+        new (&m_storage) T(std::forward<T>(rhs));
         m_type_index = internal::get_index_of_type<0, T, Types...>::index;
     }
-
-    if (!has_bad_variant_element_access<T>())
+    else if (!has_bad_variant_element_access<T>())
     {
         // AXIVION Next Construct AutosarC++19_03-M5.2.8: conversion to typed pointer is intentional, it is correctly aligned and points to sufficient memory for a T by design
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-- 
2.43.0


From db19fb77e24904a735a1cfe202df56a2d7d0ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 11/40] fix: saturate the multiplication of a Duration with
 infinity without casting NAN

---
 iceoryx_hoofs/time/include/iox/detail/duration.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_hoofs/time/include/iox/detail/duration.inl b/iceoryx_hoofs/time/include/iox/detail/duration.inl
index c13e1a8..8b2b702 100644
--- a/iceoryx_hoofs/time/include/iox/detail/duration.inl
+++ b/iceoryx_hoofs/time/include/iox/detail/duration.inl
@@ -433,6 +433,12 @@ Duration::multiplyWith(const std::enable_if_t<std::is_floating_point<T>::value,
         return Duration::zero();
     }
 
+    // prevents a NAN when either the seconds or the nanoseconds are zero
+    if (std::isinf(rhs))
+    {
+        return Duration::max();
+    }
+
     auto durationFromSeconds = fromFloatingPointSeconds<T>(static_cast<T>(m_seconds) * rhs);
 
     auto resultNanoseconds = static_cast<T>(m_nanoseconds) * rhs;
-- 
2.43.0


From 3b91cf5fb04925414dbbd1c810f631444cbe3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:51 +0000
Subject: [PATCH 12/40] fix: refuse chunk settings whose user payload offset
 does not fit the ChunkHeader

---
 iceoryx_posh/source/mepoo/chunk_settings.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/mepoo/chunk_settings.cpp b/iceoryx_posh/source/mepoo/chunk_settings.cpp
index a9eb9ed..4e1592d 100644
--- a/iceoryx_posh/source/mepoo/chunk_settings.cpp
+++ b/iceoryx_posh/source/mepoo/chunk_settings.cpp
@@ -117,6 +117,12 @@ expected<uint64_t, ChunkSettings::Error> ChunkSettings::calculateRequiredChunkSi
     uint64_t preUserPayloadAlignmentOverhang = align(headerSize, ALIGNMENT_OF_USER_PAYLOAD_OFFSET_T);
     uint64_t maxPadding = algorithm::maxVal(SIZE_OF_USER_PAYLOAD_OFFSET_T, static_cast<uint64_t>(userPayloadAlignment));
 
+    // the offset to the user-payload has to be representable in the ChunkHeader
+    if (preUserPayloadAlignmentOverhang + maxPadding > std::numeric_limits<ChunkHeader::UserPayloadOffset_t>::max())
+    {
+        return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
+    }
+
     if (userPayloadSize > std::numeric_limits<uint64_t>::max() - preUserPayloadAlignmentOverhang - maxPadding)
     {
         return err(ChunkSettings::Error::REQUIRED_CHUNK_SIZE_EXCEEDS_MAX_CHUNK_SIZE);
-- 
2.43.0


From 599814ca2ababe794f9effbda657aaabf68cca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:52 +0000
Subject: [PATCH 13/40] fix: BumpAllocator must not grant requests that
 overflow the position

---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..70278b3 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -48,13 +48,12 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
 
     void* allocation{nullptr};
 
-    const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    if ((m_length >= alignedPosition) && ((m_length - alignedPosition) >= size))
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
         allocation = reinterpret_cast<void*>(m_startAddress + alignedPosition);
-        m_currentPosition = nextPosition;
+        m_currentPosition = alignedPosition + size;
     }
     else
     {
-- 
2.43.0


From 705fd379d6685d9d7975a7b2e730a3c9c929bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:52 +0000
Subject: [PATCH 14/40] fix: unregistered segments must not be found for a
 pointer any more

---
 iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..61f3e9b 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -62,6 +62,7 @@ inline bool PointerRepository<id_t, ptr_t, CAPACITY>::unregisterPtr(const id_t i
         if (m_info[id].basePtr != nullptr)
         {
             m_info[id].basePtr = nullptr;
+            m_info[id].endPtr = nullptr;
 
             /// @note do not search for next lower registered index but we could do it here
             return true;
@@ -77,6 +78,7 @@ inline void PointerRepository<id_t, ptr_t, CAPACITY>::unregisterAll() noexcept
     for (auto& info : m_info)
     {
         info.basePtr = nullptr;
+        info.endPtr = nullptr;
     }
     m_maxRegistered = 0U;
 }
-- 
2.43.0


From 70fc4d3938cc074dbc16645d2ffc34d022951a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:52 +0000
Subject: [PATCH 15/40] fix: length check of a serialized entry must not
 overflow

---
 iceoryx_hoofs/utility/include/iox/detail/serialization.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
index 502e1b1..478ce3b 100644
--- a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
+++ b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
@@ -121,7 +121,7 @@ inline bool Serialization::removeFirstEntry(std::string& firstEntry, std::string
 
     const auto length = result.value();
 
-    if (remainder.size() < pos + length + 1U)
+    if (remainder.size() - pos - 1U < length)
     {
         return false;
     }
-- 
2.43.0


From db3823ab0961e3df596f83120e4eb50f2b19ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:32 +0000
Subject: [PATCH 16/40] fix: a port with queue capacity 0 must not let the
 sender loop forever

---
 iceoryx_posh/source/popo/ports/client_port_data.cpp     | 3 ++-
 iceoryx_posh/source/popo/ports/server_port_data.cpp     | 3 ++-
 iceoryx_posh/source/popo/ports/subscriber_port_data.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/popo/ports/client_port_data.cpp b/iceoryx_posh/source/popo/ports/client_port_data.cpp
index 2b9b90b..d2cb5ad 100644
--- a/iceoryx_posh/source/popo/ports/client_port_data.cpp
+++ b/iceoryx_posh/source/popo/ports/client_port_data.cpp
@@ -16,6 +16,7 @@
 // SPDX-License-Identifier: Apache-2.0
 
 #include "iceoryx_posh/internal/popo/ports/client_port_data.hpp"
+#include "iox/algorithm.hpp"
 
 namespace iox
 {
@@ -42,7 +43,7 @@ ClientPortData::ClientPortData(const capro::ServiceDescription& serviceDescripti
                           memoryInfo)
     , m_connectRequested(clientOptions.connectOnCreate)
 {
-    m_chunkReceiverData.m_queue.setCapacity(clientOptions.responseQueueCapacity);
+    m_chunkReceiverData.m_queue.setCapacity(algorithm::maxVal(clientOptions.responseQueueCapacity, uint64_t{1U}));
 }
 
 } // namespace popo
diff --git a/iceoryx_posh/source/popo/ports/server_port_data.cpp b/iceoryx_posh/source/popo/ports/server_port_data.cpp
index 6d57428..884ca56 100644
--- a/iceoryx_posh/source/popo/ports/server_port_data.cpp
+++ b/iceoryx_posh/source/popo/ports/server_port_data.cpp
@@ -16,6 +16,7 @@
 // SPDX-License-Identifier: Apache-2.0
 
 #include "iceoryx_posh/internal/popo/ports/server_port_data.hpp"
+#include "iox/algorithm.hpp"
 
 namespace iox
 {
@@ -41,7 +42,7 @@ ServerPortData::ServerPortData(const capro::ServiceDescription& serviceDescripti
           getRequestQueueType(serverOptions.requestQueueFullPolicy), serverOptions.requestQueueFullPolicy, memoryInfo)
     , m_offeringRequested(serverOptions.offerOnCreate)
 {
-    m_chunkReceiverData.m_queue.setCapacity(serverOptions.requestQueueCapacity);
+    m_chunkReceiverData.m_queue.setCapacity(algorithm::maxVal(serverOptions.requestQueueCapacity, uint64_t{1U}));
 }
 
 } // namespace popo
diff --git a/iceoryx_posh/source/popo/ports/subscriber_port_data.cpp b/iceoryx_posh/source/popo/ports/subscriber_port_data.cpp
index 68d08b3..22bc7a8 100644
--- a/iceoryx_posh/source/popo/ports/subscriber_port_data.cpp
+++ b/iceoryx_posh/source/popo/ports/subscriber_port_data.cpp
@@ -17,6 +17,7 @@
 
 #include "iceoryx_posh/internal/popo/ports/subscriber_port_data.hpp"
 #include "iceoryx_posh/popo/subscriber_options.hpp"
+#include "iox/algorithm.hpp"
 
 namespace iox
 {
@@ -33,7 +34,7 @@ SubscriberPortData::SubscriberPortData(const capro::ServiceDescription& serviceD
     , m_options{subscriberOptions}
     , m_subscribeRequested(subscriberOptions.subscribeOnCreate)
 {
-    m_chunkReceiverData.m_queue.setCapacity(subscriberOptions.queueCapacity);
+    m_chunkReceiverData.m_queue.setCapacity(algorithm::maxVal(subscriberOptions.queueCapacity, uint64_t{1U}));
 }
 
 } // namespace popo
-- 
2.43.0


From be758621104718f9056bacbc65363002a0d89a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:32 +0000
Subject: [PATCH 17/40] fix: RouDi must refuse registrations with unparsable
 pid, user id or timestamp

---
 .../iceoryx_posh/internal/roudi/roudi.hpp     |  8 ++--
 iceoryx_posh/source/roudi/roudi.cpp           | 39 ++++++++++++-------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
index 41dc6f5..b6d857e 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
@@ -75,10 +75,10 @@ class RouDi
     virtual void cyclicUpdateHook() noexcept;
     void IpcMessageErrorHandler() noexcept;
 
-    version::VersionInfo parseRegisterMessage(const runtime::IpcMessage& message,
-                                              uint32_t& pid,
-                                              iox_uid_t& userId,
-                                              int64_t& transmissionTimestamp) noexcept;
+    optional<version::VersionInfo> parseRegisterMessage(const runtime::IpcMessage& message,
+                                                        uint32_t& pid,
+                                                        iox_uid_t& userId,
+                                                        int64_t& transmissionTimestamp) noexcept;
 
     /// @brief Handles the registration request from process
     /// @param [in] name of the process which wants to register at roudi; this is equal to the IPC channel name
diff --git a/iceoryx_posh/source/roudi/roudi.cpp b/iceoryx_posh/source/roudi/roudi.cpp
index 651adae..f57abc4 100644
--- a/iceoryx_posh/source/roudi/roudi.cpp
+++ b/iceoryx_posh/source/roudi/roudi.cpp
@@ -268,22 +268,25 @@ void RouDi::processRuntimeMessages(runtime::IpcInterfaceCreator&& roudiIpcInterf
     }
 }
 
-version::VersionInfo RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
-                                                 uint32_t& pid,
-                                                 iox_uid_t& userId,
-                                                 int64_t& transmissionTimestamp) noexcept
+optional<version::VersionInfo> RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
+                                                           uint32_t& pid,
+                                                           iox_uid_t& userId,
+                                                           int64_t& transmissionTimestamp) noexcept
 {
-    convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str()).and_then([&pid](const auto value) {
-        pid = value;
-    });
-    convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str()).and_then([&userId](const auto value) {
-        userId = value;
-    });
-    convert::from_string<int64_t>(message.getElementAtIndex(4).c_str())
-        .and_then([&transmissionTimestamp](const auto value) { transmissionTimestamp = value; });
+    const auto maybePid = convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str());
+    const auto maybeUserId = convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str());
+    const auto maybeTimestamp = convert::from_string<int64_t>(message.getElementAtIndex(4).c_str());
+    if (!maybePid.has_value() || !maybeUserId.has_value() || !maybeTimestamp.has_value())
+    {
+        return nullopt;
+    }
+
+    pid = maybePid.value();
+    userId = maybeUserId.value();
+    transmissionTimestamp = maybeTimestamp.value();
 
     Serialization serializationVersionInfo(message.getElementAtIndex(5));
-    return serializationVersionInfo;
+    return version::VersionInfo(serializationVersionInfo);
 }
 
 void RouDi::processMessage(const runtime::IpcMessage& message,
@@ -321,14 +324,20 @@ void RouDi::processMessage(const runtime::IpcMessage& message,
             uint32_t pid{0U};
             iox_uid_t userId{0};
             int64_t transmissionTimestamp{0};
-            version::VersionInfo versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+            auto versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+            if (!versionInfo.has_value())
+            {
+                IOX_LOG(Error,
+                        "Invalid parameters for \"IpcMessageType::REG\" from \"" << runtimeName << "\" received!");
+                break;
+            }
 
             registerProcess(runtimeName,
                             pid,
                             PosixUser{userId},
                             transmissionTimestamp,
                             getUniqueSessionIdForProcess(),
-                            versionInfo);
+                            versionInfo.value());
         }
         break;
     }
-- 
2.43.0


From 819bffadb503f170ac3428bc2cfa0df3e4d5ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:32 +0000
Subject: [PATCH 18/40] fix: applications must not act in the name of RouDi's
 own ports

---
 iceoryx_posh/source/roudi/roudi.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/roudi/roudi.cpp b/iceoryx_posh/source/roudi/roudi.cpp
index f57abc4..6d913c5 100644
--- a/iceoryx_posh/source/roudi/roudi.cpp
+++ b/iceoryx_posh/source/roudi/roudi.cpp
@@ -299,6 +299,12 @@ void RouDi::processMessage(const runtime::IpcMessage& message,
         return;
     }
 
+    // the ports of RouDi itself are registered with this name
+    if (runtimeName == RuntimeName_t(IPC_CHANNEL_ROUDI_NAME))
+    {
+        IOX_LOG(Error, "Got message with the reserved runtime name \"" << runtimeName << "\"!");
+        return;
+    }
 
     for (const auto s : platform::IOX_PATH_SEPARATORS)
     {
-- 
2.43.0


From 55379a74075b15f1a67da02818e020862fcd20fd Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 19/40] fix: Port introspection publishes a new subscriber that
 has not subscribed

---
 .../internal/roudi/introspection/port_introspection.inl          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
index 0165705..4e3c503 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
@@ -348,6 +348,7 @@ inline bool PortIntrospection<PublisherPort, SubscriberPort>::PortData::addSubsc
         }
     }
 
+    setNew(true);
     return true;
 }
 
-- 
2.43.0


From d09dedae4b6fe8991a41b6b9fd65066285be0904 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:24:35 +0000
Subject: [PATCH 20/40] fix: Send the adjusted publisher options to RouDi

---
 iceoryx_posh/source/runtime/posh_runtime_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
index d63db25..71f1dfe 100644
--- a/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
+++ b/iceoryx_posh/source/runtime/posh_runtime_impl.cpp
@@ -172,7 +172,7 @@ PoshRuntimeImpl::getMiddlewarePublisher(const capro::ServiceDescription& service
 
     IpcMessage sendBuffer;
     sendBuffer << IpcMessageTypeToString(IpcMessageType::CREATE_PUBLISHER) << m_appName
-               << static_cast<Serialization>(service).toString() << publisherOptions.serialize().toString()
+               << static_cast<Serialization>(service).toString() << options.serialize().toString()
                << static_cast<Serialization>(portConfigInfo).toString();
 
     auto maybePublisher = requestPublisherFromRoudi(sendBuffer);
-- 
2.43.0


From a576b3328e4d98b6f82580cf03eef08c157748b8 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:27:10 +0000
Subject: [PATCH 21/40] fix: Process introspection has room for RouDi besides
 the maximum number of processes

---
 .../internal/roudi/introspection/process_introspection.hpp     | 3 ++-
 .../include/iceoryx_posh/roudi/introspection_types.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
index 02966b9..c3fe81b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
@@ -85,7 +85,8 @@ class ProcessIntrospection
     void send() noexcept;
 
   private:
-    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER>;
+    // all registered processes and RouDi itself
+    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1U>;
     ProcessList_t m_processList;
     bool m_processListNewData{true}; // true because we want to have a valid field, even with an empty list
 
diff --git a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
index 4d3c2ec..7e8f9bb 100644
--- a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
@@ -141,7 +141,8 @@ struct ProcessIntrospectionData
 /// @brief the topic for the process introspection that a user can subscribe to
 struct ProcessIntrospectionFieldTopic
 {
-    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER> m_processList;
+    // all registered processes and RouDi itself
+    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1U> m_processList;
 };
 
 } // namespace roudi
-- 
2.43.0


From 67a98c82dc507cba0661e5772351324f032c611d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:40:50 +0000
Subject: [PATCH 22/40] fix: Users and groups that are created by name know
 that they exist

---
 iceoryx_hoofs/posix/auth/source/posix_group.cpp | 1 +
 iceoryx_hoofs/posix/auth/source/posix_user.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/iceoryx_hoofs/posix/auth/source/posix_group.cpp b/iceoryx_hoofs/posix/auth/source/posix_group.cpp
index aa15516..9695adc 100644
--- a/iceoryx_hoofs/posix/auth/source/posix_group.cpp
+++ b/iceoryx_hoofs/posix/auth/source/posix_group.cpp
@@ -38,6 +38,7 @@ PosixGroup::PosixGroup(const PosixGroup::groupName_t& name) noexcept
     if (id.has_value())
     {
         m_id = id.value();
+        m_doesExist = true;
     }
     else
     {
diff --git a/iceoryx_hoofs/posix/auth/source/posix_user.cpp b/iceoryx_hoofs/posix/auth/source/posix_user.cpp
index 1255d04..e446f0a 100644
--- a/iceoryx_hoofs/posix/auth/source/posix_user.cpp
+++ b/iceoryx_hoofs/posix/auth/source/posix_user.cpp
@@ -108,6 +108,7 @@ PosixUser::PosixUser(const PosixUser::userName_t& name) noexcept
     if (id.has_value())
     {
         m_id = id.value();
+        m_doesExist = true;
     }
     else
     {
-- 
2.43.0


From 83bdf08c6058ce944d569cc774c9456fce47803b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:41:31 +0000
Subject: [PATCH 23/40] fix: An application can use the maximum number of
 payload segments besides the management segment

---
 iceoryx_posh/source/runtime/shared_memory_user.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/shared_memory_user.cpp b/iceoryx_posh/source/runtime/shared_memory_user.cpp
index 30cc7e5..2c62919 100644
--- a/iceoryx_posh/source/runtime/shared_memory_user.cpp
+++ b/iceoryx_posh/source/runtime/shared_memory_user.cpp
@@ -59,7 +59,7 @@ SharedMemoryUser::create(const DomainId domainId,
     auto segmentMapping = segmentManager->getSegmentMappings(PosixUser::getUserOfCurrentProcess());
     for (const auto& segment : segmentMapping)
     {
-        if (static_cast<uint32_t>(shmSegments.size()) >= MAX_SHM_SEGMENTS)
+        if (static_cast<uint32_t>(shmSegments.size()) >= NUMBER_OF_ALL_SHM_SEGMENTS)
         {
             return err(SharedMemoryUserError::TOO_MANY_SHM_SEGMENTS);
         }
-- 
2.43.0


From d7470c5653220de47c66787c080bdcf75c9ee0e9 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 24/40] fix: Options with a name of maximum length can be used
 on the command line

---
 iceoryx_hoofs/cli/source/command_line_parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/cli/source/command_line_parser.cpp b/iceoryx_hoofs/cli/source/command_line_parser.cpp
index 0503cbd..0321ad2 100644
--- a/iceoryx_hoofs/cli/source/command_line_parser.cpp
+++ b/iceoryx_hoofs/cli/source/command_line_parser.cpp
@@ -110,7 +110,12 @@ bool CommandLineParser::doesFitIntoString(const char* value, const uint64_t maxL
 
 bool CommandLineParser::doesOptionNameFitIntoString(const char* option) const noexcept
 {
-    const bool doesOptionNameFitIntoString = doesFitIntoString(option, MAX_OPTION_NAME_LENGTH);
+    // the leading dashes are not part of the option name
+    // NOLINTJUSTIFICATION required for command line options; bounds are checked
+    // NOLINTBEGIN(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+    const uint64_t optionNameStart = (option[1] == '-') ? 2 : 1;
+    const bool doesOptionNameFitIntoString = doesFitIntoString(option + optionNameStart, MAX_OPTION_NAME_LENGTH);
+    // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 
     if (!doesOptionNameFitIntoString)
     {
-- 
2.43.0


From 36a3052e38185bd666e510ad88106cc493434aea Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 25/40] fix: Options of a command line struct need not have
 both a short and a long name

---
 iceoryx_hoofs/cli/source/option_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/cli/source/option_manager.cpp b/iceoryx_hoofs/cli/source/option_manager.cpp
index ca114b3..d499362 100644
--- a/iceoryx_hoofs/cli/source/option_manager.cpp
+++ b/iceoryx_hoofs/cli/source/option_manager.cpp
@@ -38,7 +38,7 @@ void OptionManager::populateDefinedOptions(const char*& binaryName, int argc, ch
 
 OptionName_t OptionManager::getLookupName(const char shortName, const OptionName_t& name) noexcept
 {
-    if (shortName == NO_SHORT_OPTION)
+    if (name.empty())
     {
         return OptionName_t{TruncateToCapacity, &shortName, 1};
     }
-- 
2.43.0


From 3618bd07afa1666161499f894dd692c07547bb39 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:52:26 +0000
Subject: [PATCH 26/40] fix: Report numbers out of range in the RouDi config
 file instead of terminating

---
 .../roudi/roudi_config_toml_file_provider.cpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
index 510028d..cdfe031 100644
--- a/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
+++ b/iceoryx_posh/source/roudi/roudi_config_toml_file_provider.cpp
@@ -36,6 +36,24 @@ namespace iox
 {
 namespace config
 {
+namespace
+{
+// cpptoml throws if the value cannot be represented by the requested type; such a value is not usable
+template <typename T>
+cpptoml::option<T> getNumber(const cpptoml::table& table, const char* key) noexcept
+{
+    try
+    {
+        return table.get_as<T>(key);
+    }
+    catch (const std::exception& exception)
+    {
+        IOX_LOG(Warn, "The value of '" << key << "' is not valid: " << exception.what());
+        return {};
+    }
+}
+} // namespace
+
 TomlRouDiConfigFileProvider::TomlRouDiConfigFileProvider(config::CmdLineArgs_t& cmdLineArgs) noexcept
 {
     /// don't print additional output if not running
@@ -124,7 +142,7 @@ TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
     {
         return iox::err(iox::roudi::RouDiConfigFileParseError::NO_GENERAL_SECTION);
     }
-    auto configFileVersion = general->get_as<uint32_t>("version");
+    auto configFileVersion = getNumber<uint32_t>(*general, "version");
     if (!configFileVersion || *configFileVersion != 1)
     {
         return iox::err(iox::roudi::RouDiConfigFileParseError::INVALID_CONFIG_FILE_VERSION);
@@ -161,8 +179,8 @@ TomlRouDiConfigFileProvider::parse(std::istream& stream) noexcept
 
         for (auto mempool : *mempools)
         {
-            auto chunkSize = mempool->get_as<uint64_t>("size");
-            auto chunkCount = mempool->get_as<uint32_t>("count");
+            auto chunkSize = getNumber<uint64_t>(*mempool, "size");
+            auto chunkCount = getNumber<uint32_t>(*mempool, "count");
             if (!chunkSize)
             {
                 return iox::err(iox::roudi::RouDiConfigFileParseError::MEMPOOL_WITHOUT_CHUNK_SIZE);
-- 
2.43.0


From f1d9d8b59bddddb7f2314e23bfaf702edb52d7a0 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:52:26 +0000
Subject: [PATCH 27/40] fix: Optional command line values of type bool have a
 default value

---
 .../cli/include/iox/cli/option_manager.inl      | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl b/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
index f73b771..a179537 100644
--- a/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
+++ b/iceoryx_hoofs/cli/include/iox/cli/option_manager.inl
@@ -22,6 +22,21 @@ namespace iox
 {
 namespace cli
 {
+namespace internal
+{
+// the default value must be readable by Arguments::get
+template <typename T>
+inline std::string defaultValueToString(const T& value) noexcept
+{
+    return convert::toString(value);
+}
+
+inline std::string defaultValueToString(const bool& value) noexcept
+{
+    return value ? "true" : "false";
+}
+} // namespace internal
+
 template <typename T>
 inline T OptionManager::extractOptionArgumentValue(const Arguments& arguments,
                                                    const char shortName,
@@ -61,7 +76,7 @@ inline T OptionManager::defineOption(T& referenceToMember,
 {
     constexpr bool IS_NO_SWITCH = false;
     m_optionSet.addOption(OptionWithDetails{
-        {shortName, IS_NO_SWITCH, name, into<lossy<Argument_t>>(convert::toString(defaultArgumentValue))},
+        {shortName, IS_NO_SWITCH, name, into<lossy<Argument_t>>(internal::defaultValueToString(defaultArgumentValue))},
         description,
         optionType,
         {TypeInfo<T>::NAME}});
-- 
2.43.0


From 8ccc3a0cda31f28f3d3db9e10f86421094827a81 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 28/40] fix: NamedPipe::tryReceive returns the received message

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From 97b951e6a0c4e988daaf9e38e37c98e61ee3a04b Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 29/40] fix: Refuse empty messages of other programs in
 UnixDomainSocket and MessageQueue

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl   | 3 ++-
 .../posix/ipc/include/iox/detail/unix_domain_socket.inl        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
index bd46cfd..4af69d7 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
@@ -198,8 +198,9 @@ expected<uint64_t, PosixIpcChannelError> MessageQueue::receiveVerification(not_n
 {
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
+        // an empty message has no null terminator
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
+        if (msgLenght < NULL_TERMINATOR_SIZE || msg[msgLenght - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..9d6540d 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -100,8 +100,9 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     const auto receivedMsgLength = static_cast<uint64_t>(recvCall->value);
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
+        // an empty datagram has no null terminator
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
+        if (receivedMsgLength < NULL_TERMINATOR_SIZE || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
-- 
2.43.0


From 283fafae0cecff9766430b62a6bb37ac588e0049 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 30/40] fix: Unix domain sockets do not wait forever with a
 timeout below one microsecond

---
 .../ipc/include/iox/detail/unix_domain_socket.inl      |  4 ++--
 .../posix/ipc/include/iox/unix_domain_socket.hpp       |  4 ++++
 iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp  | 10 ++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 9d6540d..1c19589 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -37,7 +37,7 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::timedSendImpl(not_null<co
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
 
-    auto tv = timeout.timeval();
+    auto tv = timeoutToTimeval(timeout);
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
@@ -73,7 +73,7 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
 
-    auto tv = timeout.timeval();
+    auto tv = timeoutToTimeval(timeout);
     auto setsockoptCall = IOX_POSIX_CALL(iox_setsockopt)(m_sockfd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv))
                               .failureReturnValue(ERROR_CODE)
                               .ignoreErrnos(EWOULDBLOCK)
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
index e49d807..158bb28 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
@@ -139,6 +139,10 @@ class UnixDomainSocket
     PosixIpcChannelError errnoToEnum(const int32_t errnum) const noexcept;
     static PosixIpcChannelError errnoToEnum(const UdsName_t& name, const int32_t errnum) noexcept;
 
+    /// @brief A timeout of zero turns the timeout of a socket off, therefore a non-zero timeout is at least the smallest
+    /// one which can be expressed by 'timeval'
+    static struct timeval timeoutToTimeval(const units::Duration& timeout) noexcept;
+
     expected<void, PosixIpcChannelError> closeFileDescriptor() noexcept;
     static expected<void, PosixIpcChannelError> closeFileDescriptor(const UdsName_t& name,
                                                                     const int sockfd,
diff --git a/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp b/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
index 1c03ca6..6a5e170 100644
--- a/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
@@ -315,6 +315,16 @@ UnixDomainSocket::timedReceive(const units::Duration& timeout) const noexcept
     return ok<std::string>(msg.c_str());
 }
 
+struct timeval UnixDomainSocket::timeoutToTimeval(const units::Duration& timeout) noexcept
+{
+    constexpr units::Duration SMALLEST_TIMEOUT{units::Duration::fromMicroseconds(1)};
+    if (timeout > units::Duration::zero() && timeout < SMALLEST_TIMEOUT)
+    {
+        return SMALLEST_TIMEOUT.timeval();
+    }
+    return timeout.timeval();
+}
+
 PosixIpcChannelError UnixDomainSocket::errnoToEnum(const int32_t errnum) const noexcept
 {
     return errnoToEnum(m_name, errnum);
-- 
2.43.0


From 5a6580e0498788f5c271784cc25beec0221d8576 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 31/40] fix: Refuse names of named pipes which would be
 truncated or which are empty

---
 .../posix/ipc/include/iox/named_pipe.hpp      |  5 ++-
 iceoryx_hoofs/posix/ipc/source/named_pipe.cpp | 33 ++++++++++---------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/named_pipe.hpp b/iceoryx_hoofs/posix/ipc/include/iox/named_pipe.hpp
index 3d4ebd4..ca46fd4 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/named_pipe.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/named_pipe.hpp
@@ -69,7 +69,8 @@ class NamedPipe
 
     /// @brief removes a named pipe artifact from the system
     /// @return true if the artifact was removed, false when no artifact was found and
-    ///         PosixIpcChannelError::INTERNAL_LOGIC_ERROR when shm_unlink failed
+    ///         PosixIpcChannelError::INTERNAL_LOGIC_ERROR when shm_unlink failed or
+    ///         PosixIpcChannelError::INVALID_CHANNEL_NAME when the name is not a valid named pipe name
     static expected<bool, PosixIpcChannelError> unlinkIfExists(const PosixIpcChannelName_t& name) noexcept;
 
     /// @brief tries to send a message via the named pipe. if the pipe is full PosixIpcChannelError::TIMEOUT is returned
@@ -162,6 +163,8 @@ class NamedPipe
     template <typename Prefix>
     static PosixIpcChannelName_t mapToSharedMemoryName(const Prefix& p, const PosixIpcChannelName_t& name) noexcept;
 
+    static bool isValidName(const PosixIpcChannelName_t& name) noexcept;
+
     /// @brief destroys an initialized named pipe.
     /// @return is always successful
     expected<void, PosixIpcChannelError> destroy() noexcept;
diff --git a/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp b/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
index 7e99fa7..1ddb11a 100644
--- a/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/named_pipe.cpp
@@ -38,23 +38,9 @@ constexpr units::Duration NamedPipe::NamedPipeData::WAIT_FOR_INIT_TIMEOUT;
 // NOLINTNEXTLINE(readability-function-size,readability-function-cognitive-complexity)
 expected<NamedPipe, PosixIpcChannelError> NamedPipeBuilder::create() const noexcept
 {
-    if (m_name.size() + strlen(&NamedPipe::NAMED_PIPE_PREFIX[0]) > NamedPipe::MAX_MESSAGE_SIZE)
+    if (!NamedPipe::isValidName(m_name))
     {
-        IOX_LOG(Error,
-                "The named pipe name: '" << m_name << "' is too long. Maxium name length is: "
-                                         << NamedPipe::MAX_MESSAGE_SIZE - strlen(&NamedPipe::NAMED_PIPE_PREFIX[0]));
-        return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
-    }
-
-    // leading slash is allowed even though it is not a valid file name
-    bool isValidPipeName =
-        detail::isValidFileName(m_name)
-        // name is checked for emptiness, so it's ok to get a first member
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        || (!m_name.empty() && m_name.c_str()[0] == '/' && detail::isValidFileName(*m_name.substr(1)));
-    if (!isValidPipeName)
-    {
-        IOX_LOG(Error, "The named pipe name: '" << m_name << "' is not a valid file path name.");
+        IOX_LOG(Error, "The named pipe name: '" << m_name << "' is too long or not a valid file path name.");
         return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
     }
 
@@ -173,6 +159,16 @@ PosixIpcChannelName_t NamedPipe::mapToSharedMemoryName(const Prefix& p, const Po
     return channelName;
 }
 
+bool NamedPipe::isValidName(const PosixIpcChannelName_t& name) noexcept
+{
+    // leading slash is allowed even though it is not a valid file name
+    // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic) name is checked for emptiness
+    const auto fileName = (!name.empty() && name.c_str()[0] == '/') ? *name.substr(1) : name;
+
+    return detail::isValidFileName(fileName)
+           && fileName.size() + strlen(&NAMED_PIPE_PREFIX[0]) <= PosixIpcChannelName_t::capacity();
+}
+
 expected<void, PosixIpcChannelError> NamedPipe::destroy() noexcept
 {
     if (m_data != nullptr)
@@ -188,6 +184,11 @@ expected<void, PosixIpcChannelError> NamedPipe::destroy() noexcept
 
 expected<bool, PosixIpcChannelError> NamedPipe::unlinkIfExists(const PosixIpcChannelName_t& name) noexcept
 {
+    if (!isValidName(name))
+    {
+        return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
+    }
+
     auto result = detail::PosixSharedMemory::unlinkIfExist(mapToSharedMemoryName(NAMED_PIPE_PREFIX, name));
     if (result.has_error())
     {
-- 
2.43.0


From fc6dcba0831d79cbe49b8e1b3132df84f2ad91d7 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:18:51 +0000
Subject: [PATCH 32/40] fix: Refuse names of message queues which would be
 truncated

---
 iceoryx_hoofs/posix/ipc/source/message_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
index 26d6ce7..2d35967 100644
--- a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
@@ -355,6 +355,10 @@ MessageQueue::sanitizeIpcChannelName(const PosixIpcChannelName_t& name) noexcept
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     if (name.c_str()[0] != '/')
     {
+        if (name.size() == PosixIpcChannelName_t::capacity())
+        {
+            return err(PosixIpcChannelError::INVALID_CHANNEL_NAME);
+        }
         return ok(PosixIpcChannelName_t("/").append(iox::TruncateToCapacity, name));
     }
 
-- 
2.43.0


From adf4e2b25675381a010727e1518460bac1d542b5 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 33/40] fix: A file lock cannot be held twice when it is
 released and acquired at the same time

---
 .../posix/filesystem/source/file_lock.cpp     | 89 ++++++++++++-------
 .../include/iceoryx_platform/file.hpp         |  3 +
 iceoryx_platform/freertos/source/file.cpp     |  6 ++
 .../linux/include/iceoryx_platform/file.hpp   |  3 +
 iceoryx_platform/linux/source/file.cpp        |  9 ++
 .../mac/include/iceoryx_platform/file.hpp     |  3 +
 iceoryx_platform/mac/source/file.cpp          |  8 ++
 .../qnx/include/iceoryx_platform/file.hpp     |  3 +
 iceoryx_platform/qnx/source/file.cpp          |  8 ++
 .../unix/include/iceoryx_platform/file.hpp    |  3 +
 iceoryx_platform/unix/source/file.cpp         |  9 ++
 .../win/include/iceoryx_platform/file.hpp     |  3 +
 iceoryx_platform/win/source/file.cpp          |  6 ++
 13 files changed, 120 insertions(+), 33 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
index 86ed2d7..f1e7752 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
@@ -55,38 +55,50 @@ expected<FileLock, FileLockError> FileLockBuilder::create() noexcept
     fileLockPath.unsafe_append(m_name);
     fileLockPath.unsafe_append(FileLock::LOCK_FILE_SUFFIX);
 
-    auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
-                                                 convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
-                                                 m_permission.value())
-                        .failureReturnValue(-1)
-                        .evaluate();
-
-    if (openCall.has_error())
+    // the file lock is removed by its owner while the lock is held; if this happens after the file was opened and before
+    // it was locked, the lock is worthless and the next attempt has to be made with a new file
+    while (true)
     {
-        return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
-    }
+        auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
+                                                     convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
+                                                     m_permission.value())
+                            .failureReturnValue(-1)
+                            .evaluate();
 
-    auto fileDescriptor = openCall.value().value;
-    auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
-                        .failureReturnValue(-1)
-                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)
-                        .evaluate();
+        if (openCall.has_error())
+        {
+            return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
+        }
 
-    if (lockCall.has_error())
-    {
-        IOX_POSIX_CALL(iox_ext_close)
-        (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
-            IOX_LOG(Error,
-                    "Unable to close file lock \"" << fileLockPath
-                                                   << "\" in error related cleanup during initialization.");
-        });
+        auto fileDescriptor = openCall.value().value;
+        auto closeFile = [&] {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error,
+                        "Unable to close file lock \"" << fileLockPath
+                                                       << "\" in error related cleanup during initialization.");
+            });
+        };
 
-        //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
-        return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
-    }
+        auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
+                            .failureReturnValue(-1)
+                            .suppressErrorMessagesForErrnos(EWOULDBLOCK)
+                            .evaluate();
+
+        if (lockCall.has_error())
+        {
+            closeFile();
+            //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
+            return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+        }
 
-    return ok(FileLock(fileDescriptor, fileLockPath));
+        if (!iox_is_removed(fileDescriptor))
+        {
+            return ok(FileLock(fileDescriptor, fileLockPath));
+        }
+        closeFile();
+    }
 }
 
 FileLock::FileLock(const int32_t fileDescriptor, const FilePath_t& path) noexcept
@@ -133,6 +145,13 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
     if (m_fd != INVALID_FD)
     {
         bool cleanupFailed = false;
+
+        // must happen while the lock is held, otherwise the file could already be locked by the next owner
+        auto removeCall = IOX_POSIX_CALL(remove)(m_fileLockPath.c_str())
+                              .failureReturnValue(-1)
+                              .suppressErrorMessagesForErrnos(EACCES, EBUSY)
+                              .evaluate();
+
         IOX_POSIX_CALL(iox_flock)
         (m_fd, static_cast<int>(LockOperation::UNLOCK))
             .failureReturnValue(-1)
@@ -151,12 +170,16 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
             IOX_LOG(Error, "Unable to close the file handle to the file lock \"" << m_fileLockPath << '"');
         });
 
-        IOX_POSIX_CALL(remove)
-        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            cleanupFailed = true;
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
-            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
-        });
+        if (removeCall.has_error())
+        {
+            // there are platforms on which an open file cannot be removed
+            IOX_POSIX_CALL(remove)
+            (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                cleanupFailed = true;
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
+                IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
+            });
+        }
 
         if (cleanupFailed)
         {
diff --git a/iceoryx_platform/freertos/include/iceoryx_platform/file.hpp b/iceoryx_platform/freertos/include/iceoryx_platform/file.hpp
index a560dca..b76f277 100644
--- a/iceoryx_platform/freertos/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/freertos/include/iceoryx_platform/file.hpp
@@ -22,4 +22,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_FREERTOS_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/freertos/source/file.cpp b/iceoryx_platform/freertos/source/file.cpp
index 08fbcdc..480a421 100644
--- a/iceoryx_platform/freertos/source/file.cpp
+++ b/iceoryx_platform/freertos/source/file.cpp
@@ -26,3 +26,9 @@ int iox_flock(int, int)
     // Both of these things will never happen on FreeRTOS, so we can just leave the implementation empty.
     return 0;
 }
+
+bool iox_is_removed(int)
+{
+    // there are no lock files, see above
+    return false;
+}
diff --git a/iceoryx_platform/linux/include/iceoryx_platform/file.hpp b/iceoryx_platform/linux/include/iceoryx_platform/file.hpp
index 658ffc3..fdac46a 100644
--- a/iceoryx_platform/linux/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/linux/include/iceoryx_platform/file.hpp
@@ -20,4 +20,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_LINUX_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/linux/source/file.cpp b/iceoryx_platform/linux/source/file.cpp
index 939da1d..14ca324 100644
--- a/iceoryx_platform/linux/source/file.cpp
+++ b/iceoryx_platform/linux/source/file.cpp
@@ -15,8 +15,17 @@
 
 #include "iceoryx_platform/file.hpp"
 
+#include <sys/stat.h>
+
 // NOLINTNEXTLINE(readability-identifier-naming)
 int iox_flock(int fd, int op)
 {
     return flock(fd, op);
 }
+
+// NOLINTNEXTLINE(readability-identifier-naming)
+bool iox_is_removed(int fd)
+{
+    struct stat status{};
+    return fstat(fd, &status) == 0 && status.st_nlink == 0;
+}
diff --git a/iceoryx_platform/mac/include/iceoryx_platform/file.hpp b/iceoryx_platform/mac/include/iceoryx_platform/file.hpp
index c2743ba..fee0ea6 100644
--- a/iceoryx_platform/mac/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/mac/include/iceoryx_platform/file.hpp
@@ -20,4 +20,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_MAC_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/mac/source/file.cpp b/iceoryx_platform/mac/source/file.cpp
index 57bd8fe..4ce98df 100644
--- a/iceoryx_platform/mac/source/file.cpp
+++ b/iceoryx_platform/mac/source/file.cpp
@@ -15,7 +15,15 @@
 
 #include "iceoryx_platform/file.hpp"
 
+#include <sys/stat.h>
+
 int iox_flock(int fd, int op)
 {
     return flock(fd, op);
 }
+
+bool iox_is_removed(int fd)
+{
+    struct stat status{};
+    return fstat(fd, &status) == 0 && status.st_nlink == 0;
+}
diff --git a/iceoryx_platform/qnx/include/iceoryx_platform/file.hpp b/iceoryx_platform/qnx/include/iceoryx_platform/file.hpp
index 72c24f5..0550841 100644
--- a/iceoryx_platform/qnx/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/qnx/include/iceoryx_platform/file.hpp
@@ -20,4 +20,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_QNX_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/qnx/source/file.cpp b/iceoryx_platform/qnx/source/file.cpp
index 57bd8fe..4ce98df 100644
--- a/iceoryx_platform/qnx/source/file.cpp
+++ b/iceoryx_platform/qnx/source/file.cpp
@@ -15,7 +15,15 @@
 
 #include "iceoryx_platform/file.hpp"
 
+#include <sys/stat.h>
+
 int iox_flock(int fd, int op)
 {
     return flock(fd, op);
 }
+
+bool iox_is_removed(int fd)
+{
+    struct stat status{};
+    return fstat(fd, &status) == 0 && status.st_nlink == 0;
+}
diff --git a/iceoryx_platform/unix/include/iceoryx_platform/file.hpp b/iceoryx_platform/unix/include/iceoryx_platform/file.hpp
index 4f4e777..472b172 100644
--- a/iceoryx_platform/unix/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/unix/include/iceoryx_platform/file.hpp
@@ -20,4 +20,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_UNIX_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/unix/source/file.cpp b/iceoryx_platform/unix/source/file.cpp
index 939da1d..14ca324 100644
--- a/iceoryx_platform/unix/source/file.cpp
+++ b/iceoryx_platform/unix/source/file.cpp
@@ -15,8 +15,17 @@
 
 #include "iceoryx_platform/file.hpp"
 
+#include <sys/stat.h>
+
 // NOLINTNEXTLINE(readability-identifier-naming)
 int iox_flock(int fd, int op)
 {
     return flock(fd, op);
 }
+
+// NOLINTNEXTLINE(readability-identifier-naming)
+bool iox_is_removed(int fd)
+{
+    struct stat status{};
+    return fstat(fd, &status) == 0 && status.st_nlink == 0;
+}
diff --git a/iceoryx_platform/win/include/iceoryx_platform/file.hpp b/iceoryx_platform/win/include/iceoryx_platform/file.hpp
index db48a23..e0bcd37 100644
--- a/iceoryx_platform/win/include/iceoryx_platform/file.hpp
+++ b/iceoryx_platform/win/include/iceoryx_platform/file.hpp
@@ -23,4 +23,7 @@
 
 int iox_flock(int fd, int op);
 
+/// @brief determines whether the open file has no name anymore, i.e. whether it was removed after it was opened
+bool iox_is_removed(int fd);
+
 #endif // IOX_HOOFS_WIN_PLATFORM_FILE_HPP
diff --git a/iceoryx_platform/win/source/file.cpp b/iceoryx_platform/win/source/file.cpp
index 92a3b84..55fb9bb 100644
--- a/iceoryx_platform/win/source/file.cpp
+++ b/iceoryx_platform/win/source/file.cpp
@@ -45,3 +45,9 @@ int iox_flock(int fd, int op)
     }
     return 0;
 }
+
+bool iox_is_removed(int)
+{
+    // an open file cannot be removed on Windows
+    return false;
+}
-- 
2.43.0


From 89427fba513cc5ed89808b567541f6503a7341b9 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:21:14 +0000
Subject: [PATCH 34/40] fix: A message queue which cannot be opened is reported
 as error

---
 iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp b/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
index 2b9b71e..0dbf669 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/message_queue.hpp
@@ -50,7 +50,7 @@ class MessageQueueBuilder;
 class MessageQueue
 {
   public:
-    static constexpr mqd_t INVALID_DESCRIPTOR = std::numeric_limits<mqd_t>::max();
+    static constexpr mqd_t INVALID_DESCRIPTOR = static_cast<mqd_t>(-1);
     static constexpr int32_t ERROR_CODE = -1;
     static constexpr uint64_t SHORTEST_VALID_QUEUE_NAME = 2;
     static constexpr uint64_t NULL_TERMINATOR_SIZE = 1;
-- 
2.43.0


From 482490dd44980fba7b37263f49e9414ebc43e9fb Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:22:20 +0000
Subject: [PATCH 35/40] fix: A message queue can receive into a string which is
 not empty

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
index 4af69d7..240ab93 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/message_queue.inl
@@ -159,6 +159,8 @@ expected<void, PosixIpcChannelError> MessageQueue::receive(iox::string<N>& buf)
         result = receiveImpl<char, Termination::NULL_TERMINATOR>(str, info.total_size);
         if (result.has_error())
         {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+            str[0] = '\0';
             return 0;
         }
         return result.value();
@@ -181,6 +183,8 @@ expected<void, PosixIpcChannelError> MessageQueue::timedReceive(iox::string<N>&
         result = timedReceiveImpl<char, Termination::NULL_TERMINATOR>(str, info.total_size, timeout);
         if (result.has_error())
         {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+            str[0] = '\0';
             return 0;
         }
         return result.value();
-- 
2.43.0


From d0671c417bf840e6af016b22b97ca9722e265e6e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:36:24 +0000
Subject: [PATCH 36/40] fix: A spin lock is not mistaken for an owned one when
 it changes its owner in between

The pid and the thread id of the owner were read one after the other. When
two processes have threads with equal ids (as after a fork), a thread could
combine the pid of one owner with the id of the next one and consider itself
the owner of a lock that it does not own.
---
 .../sync_extended/include/iox/spin_lock.hpp   |  7 +++++
 .../sync_extended/source/spin_lock.cpp        | 28 +++++++++++++------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/sync_extended/include/iox/spin_lock.hpp b/iceoryx_hoofs/concurrent/sync_extended/include/iox/spin_lock.hpp
index 841aaee..b279c4f 100644
--- a/iceoryx_hoofs/concurrent/sync_extended/include/iox/spin_lock.hpp
+++ b/iceoryx_hoofs/concurrent/sync_extended/include/iox/spin_lock.hpp
@@ -53,6 +53,12 @@ class SpinLock : public LockInterface<SpinLock>
 
     expected<TryLock, TryLockError> try_lock_impl() noexcept;
 
+    /// @brief The pid and the tid are not stored in a single atomic. Therefore, the acquisition counter is used to ensure
+    ///        that both belong to the same owner. When the calling thread is the owner nobody else can change it.
+    bool is_owned_by(const pid_t pid, const std::thread::id tid) const noexcept;
+
+    void set_owner(const pid_t pid, const std::thread::id tid) noexcept;
+
     struct LockInfo
     {
         pid_t tid;
@@ -66,6 +72,7 @@ class SpinLock : public LockInterface<SpinLock>
     concurrent::Atomic<pid_t> m_pid{0};
     concurrent::Atomic<uint64_t> m_recursive_count{0};
     concurrent::Atomic<std::thread::id> m_tid{std::thread::id()};
+    concurrent::Atomic<uint64_t> m_acquisition_counter{0};
 };
 
 class SpinLockBuilder
diff --git a/iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp b/iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp
index d3f4d4f..85e1836 100644
--- a/iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp
+++ b/iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp
@@ -38,12 +38,26 @@ SpinLock::SpinLock(const LockBehavior lock_behavior) noexcept
 {
 }
 
+bool SpinLock::is_owned_by(const pid_t pid, const std::thread::id tid) const noexcept
+{
+    const auto acquisition = m_acquisition_counter.load();
+    return m_pid.load() == pid && m_tid.load() == tid && m_acquisition_counter.load() == acquisition;
+}
+
+void SpinLock::set_owner(const pid_t pid, const std::thread::id tid) noexcept
+{
+    m_acquisition_counter.fetch_add(1);
+    m_pid.store(pid);
+    m_tid.store(tid);
+    m_recursive_count.store(1);
+}
+
 expected<void, LockError> SpinLock::lock_impl() noexcept
 {
     auto pid = getpid();
     auto tid = std::this_thread::get_id();
 
-    if (m_pid.load() == pid && m_tid.load() == tid)
+    if (is_owned_by(pid, tid))
     {
         if (m_recursive.load(std::memory_order_relaxed))
         {
@@ -58,9 +72,7 @@ expected<void, LockError> SpinLock::lock_impl() noexcept
     detail::adaptive_wait spinner;
     spinner.wait_loop([this] { return this->m_lock_flag.test_and_set(std::memory_order_acquire); });
 
-    m_pid.store(pid);
-    m_tid.store(tid);
-    m_recursive_count.store(1);
+    set_owner(pid, tid);
 
     return ok();
 }
@@ -70,7 +82,7 @@ expected<void, UnlockError> SpinLock::unlock_impl() noexcept
     auto pid = getpid();
     auto tid = std::this_thread::get_id();
 
-    if (m_pid.load() != pid || m_tid.load() != tid)
+    if (!is_owned_by(pid, tid))
     {
         return err(UnlockError::NOT_OWNED_BY_THREAD);
     }
@@ -96,7 +108,7 @@ expected<TryLock, TryLockError> SpinLock::try_lock_impl() noexcept
     auto pid = getpid();
     auto tid = std::this_thread::get_id();
 
-    if (m_pid.load() == pid && m_tid.load() == tid)
+    if (is_owned_by(pid, tid))
     {
         if (m_recursive.load(std::memory_order_relaxed))
         {
@@ -109,9 +121,7 @@ expected<TryLock, TryLockError> SpinLock::try_lock_impl() noexcept
 
     if (!m_lock_flag.test_and_set(std::memory_order_acquire))
     {
-        m_pid.store(pid);
-        m_tid.store(tid);
-        m_recursive_count.store(1);
+        set_owner(pid, tid);
 
         return ok(TryLock::LOCK_SUCCEEDED);
     }
-- 
2.43.0


From 599cad64e9e99dea77c0f35c18bc3fee646eb438 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:43:23 +0000
Subject: [PATCH 37/40] fix: Waiting for a semaphore is not ended by signals
 which are handled meanwhile

After five interruptions wait and timedWait failed with
INTERRUPTED_BY_SIGNAL_HANDLER. All users of them consider this impossible and
terminate the application, e.g. one that waits in a wait set, in
waitForTerminationRequest, or which has a periodic task.
---
 .../posix/sync/source/semaphore_helper.cpp    | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp b/iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp
index 6d05392..dbe5a92 100644
--- a/iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp
+++ b/iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp
@@ -56,11 +56,21 @@ expected<void, SemaphoreError> sem_post(iox_sem_t* handle) noexcept
 
 expected<SemaphoreWaitState, SemaphoreError> sem_timed_wait(iox_sem_t* handle, const units::Duration& timeout) noexcept
 {
+    // the timeout is absolute, waiting again after an interruption by a signal handler does not prolong it
     const timespec timeoutAsTimespec = timeout.timespec(units::TimeSpecReference::Epoch);
-    auto result = IOX_POSIX_CALL(iox_sem_timedwait)(handle, &timeoutAsTimespec)
-                      .failureReturnValue(-1)
-                      .ignoreErrnos(ETIMEDOUT)
-                      .evaluate();
+    auto waitCall = [&] {
+        return IOX_POSIX_CALL(iox_sem_timedwait)(handle, &timeoutAsTimespec)
+            .failureReturnValue(-1)
+            .ignoreErrnos(ETIMEDOUT)
+            .suppressErrorMessagesForErrnos(EINTR)
+            .evaluate();
+    };
+
+    auto result = waitCall();
+    while (result.has_error() && result.error().errnum == EINTR)
+    {
+        result = waitCall();
+    }
 
     if (result.has_error())
     {
@@ -84,7 +94,18 @@ expected<bool, SemaphoreError> sem_try_wait(iox_sem_t* handle) noexcept
 
 expected<void, SemaphoreError> sem_wait(iox_sem_t* handle) noexcept
 {
-    auto result = IOX_POSIX_CALL(iox_sem_wait)(handle).failureReturnValue(-1).evaluate();
+    auto waitCall = [&] {
+        return IOX_POSIX_CALL(iox_sem_wait)(handle)
+            .failureReturnValue(-1)
+            .suppressErrorMessagesForErrnos(EINTR)
+            .evaluate();
+    };
+
+    auto result = waitCall();
+    while (result.has_error() && result.error().errnum == EINTR)
+    {
+        result = waitCall();
+    }
 
     if (result.has_error())
     {
-- 
2.43.0


From 0c1932e2798b0336f5b33a2fe3fda41a566acd39 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 12:53:44 +0000
Subject: [PATCH 38/40] fix: try_lock of a mutex with deadlock detection fails
 for its owner as for everybody else

A robust mutex or one with priority inheritance reports EDEADLK in this case,
which became an UNKNOWN_ERROR.
---
 iceoryx_hoofs/posix/sync/source/mutex.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/posix/sync/source/mutex.cpp b/iceoryx_hoofs/posix/sync/source/mutex.cpp
index 5e0aa63..90b90b5 100644
--- a/iceoryx_hoofs/posix/sync/source/mutex.cpp
+++ b/iceoryx_hoofs/posix/sync/source/mutex.cpp
@@ -384,8 +384,11 @@ expected<void, UnlockError> mutex::unlock_impl() noexcept
 
 expected<TryLock, TryLockError> mutex::try_lock_impl() noexcept
 {
-    auto result =
-        IOX_POSIX_CALL(iox_pthread_mutex_trylock)(&m_handle).returnValueMatchesErrno().ignoreErrnos(EBUSY).evaluate();
+    // a robust mutex with deadlock detection which is already held by the calling thread is reported with EDEADLK
+    auto result = IOX_POSIX_CALL(iox_pthread_mutex_trylock)(&m_handle)
+                      .returnValueMatchesErrno()
+                      .ignoreErrnos(EBUSY, EDEADLK)
+                      .evaluate();
 
     if (result.has_error())
     {
@@ -413,6 +416,6 @@ expected<TryLock, TryLockError> mutex::try_lock_impl() noexcept
         }
     }
 
-    return (result->errnum == EBUSY) ? ok(TryLock::FAILED_TO_ACQUIRE_LOCK) : ok(TryLock::LOCK_SUCCEEDED);
+    return (result->errnum == EBUSY || result->errnum == EDEADLK) ? ok(TryLock::FAILED_TO_ACQUIRE_LOCK) : ok(TryLock::LOCK_SUCCEEDED);
 }
 } // namespace iox
-- 
2.43.0


From 26f93283cfa28694b02a28599d7879cd6dabe251 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 13:26:08 +0000
Subject: [PATCH 39/40] fix: A C subscriber no longer notifies a wait set it
 was detached from

Detaching a C subscriber's event or state from a wait set left the condition variable set in the port: every
further chunk notified the trigger index, which the next attachment re-uses, and after the end of the wait set
a condition variable that may belong to somebody else. The C++ subscriber unsets it.
---
 iceoryx_binding_c/source/cpp2c_subscriber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iceoryx_binding_c/source/cpp2c_subscriber.cpp b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
index e7458f5..975aa34 100644
--- a/iceoryx_binding_c/source/cpp2c_subscriber.cpp
+++ b/iceoryx_binding_c/source/cpp2c_subscriber.cpp
@@ -47,6 +47,7 @@ void cpp2c_Subscriber::disableEvent(const SubscriberEvent subscriberEvent) noexc
     {
     case SubscriberEvent::DATA_RECEIVED:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
@@ -70,6 +71,7 @@ void cpp2c_Subscriber::disableState(const SubscriberState subscriberState) noexc
     {
     case SubscriberState::HAS_DATA:
         m_trigger.reset();
+        iox::popo::SubscriberPortUser(m_portData).unsetConditionVariable();
         break;
     }
 }
-- 
2.43.0


From bfb9367d910a461a1af3b68a8a94d5649bf084be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:43 +0000
Subject: [PATCH 40/40] fix: Memory which is created again is announced and
 destroyed memory is forgotten

---
 iceoryx_posh/source/roudi/memory/memory_provider.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iceoryx_posh/source/roudi/memory/memory_provider.cpp b/iceoryx_posh/source/roudi/memory/memory_provider.cpp
index 003ab70..5dc6f0e 100644
--- a/iceoryx_posh/source/roudi/memory/memory_provider.cpp
+++ b/iceoryx_posh/source/roudi/memory/memory_provider.cpp
@@ -129,6 +129,11 @@ expected<void, MemoryProviderError> MemoryProvider::destroy() noexcept
         UntypedRelativePointer::unregisterPtr(segment_id_t{m_segmentId});
         m_memory = nullptr;
         m_size = 0U;
+        m_memoryAvailableAnnounced = false;
+        for (auto* memoryBlock : m_memoryBlocks)
+        {
+            memoryBlock->m_memory = nullptr;
+        }
     }
 
     return destructionResult;
-- 
2.43.0

