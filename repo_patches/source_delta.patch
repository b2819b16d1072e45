From e9a73262d608087f3f56f4a65c9662abefb4b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 01/31] fix: do not hold simulationMutex while profile tools
 are created

An invalid --enable-profiling specification calls Output::fatal(), whose
emergencyShutdown() takes simulationMutex again, so the simulation hung
instead of exiting.
---
 src/sst/core/simulation.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..895320e 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -252,10 +252,14 @@ Simulation::createSimulation(
     std::thread::id tid      = std::this_thread::get_id();
     Simulation*     instance = new Simulation(my_rank, num_ranks, restart, currentSimCycle, currentPriority);
 
-    std::scoped_lock lock(simulationMutex);
-    instanceMap[tid] = instance;
-    instanceVec_.resize(num_ranks.thread);
-    instanceVec_[my_rank.thread] = instance;
+    {
+        std::scoped_lock lock(simulationMutex);
+        instanceMap[tid] = instance;
+        instanceVec_.resize(num_ranks.thread);
+        instanceVec_[my_rank.thread] = instance;
+    }
+    // Must not hold simulationMutex here: errors in the profiling specification call fatal(), and emergencyShutdown()
+    // takes the same lock
     instance->initializeProfileTools(config.enabled_profiling());
 
     return instance;
@@ -1198,6 +1202,8 @@ Simulation::emergencyShutdown()
     std::scoped_lock lock(simulationMutex);
 
     for ( auto&& instance : instanceVec_ ) {
+        // Threads that have not created their instance yet have nothing to shut down
+        if ( nullptr == instance ) continue;
         instance->shutdown_mode_ = SHUTDOWN_EMERGENCY;
         instance->endSim         = true;
         //// Function not available with gcc 4.6
-- 
2.43.0


From fe9e11817f8ff9a5ce1c1b8b559566f3d57e2798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 02/31] fix: release the lock when popping from an empty time
 vortex

---
 src/sst/core/impl/timevortex/timeVortexPQ.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexPQ.cc b/src/sst/core/impl/timevortex/timeVortexPQ.cc
index 7d75427..21fd6ff 100644
--- a/src/sst/core/impl/timevortex/timeVortexPQ.cc
+++ b/src/sst/core/impl/timevortex/timeVortexPQ.cc
@@ -76,7 +76,10 @@ Activity*
 TimeVortexPQBase<TS>::pop()
 {
     if constexpr ( TS ) slock.lock();
-    if ( data.empty() ) return nullptr;
+    if ( data.empty() ) {
+        if constexpr ( TS ) slock.unlock();
+        return nullptr;
+    }
     Activity* ret_val = data.top();
     data.pop();
     current_depth--;
-- 
2.43.0


From 939ccd3b6972d930e26716f9bbdd6e4c5cd250a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:32 +0000
Subject: [PATCH 03/31] fix: give the direct-link thread sync its own lookahead
 interval

---
 src/sst/core/sync/threadSyncDirectSkip.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index d6c5ddb..64aa544 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -69,6 +69,9 @@ public:
 
     SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
 
+    /** The threads have to meet at least once per minimum latency of the links between them */
+    SimTime_t findSyncInterval() override { return my_max_period; }
+
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
     ActivityQueue* registerRemoteLink(int UNUSED(id), Link* UNUSED(link)) override { return nullptr; }
-- 
2.43.0


From 70d3961e5a8ad6fa682a4dca6ac1a5cdc969d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 04/31] fix: stop when data name a class that is not registered

---
 src/sst/core/serialization/serializable_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sst/core/serialization/serializable_base.cc b/src/sst/core/serialization/serializable_base.cc
index 2e5ff9f..2ba403b 100644
--- a/src/sst/core/serialization/serializable_base.cc
+++ b/src/sst/core/serialization/serializable_base.cc
@@ -82,6 +82,7 @@ serializable_factory::get_serializable(uint32_t cls_id)
         // spkt_throw_printf(value_error,
         //                  "class id %ld is not a valid serializable id",
         //                  cls_id);
+        abort();
     }
     serializable_builder* builder = it->second;
     return builder->build();
-- 
2.43.0


From a008392cd6c242697f63434d45303ff9bb6cdbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 05/31] fix: read the restart data section of a checkpoint
 before unpacking it

---
 src/sst/core/model/restart/sstcptmodel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sst/core/model/restart/sstcptmodel.cc b/src/sst/core/model/restart/sstcptmodel.cc
index cec7592..db22d81 100644
--- a/src/sst/core/model/restart/sstcptmodel.cc
+++ b/src/sst/core/model/restart/sstcptmodel.cc
@@ -273,6 +273,7 @@ SSTCPTModelDefinition::createConfigGraph()
 
     fs_globals.read(reinterpret_cast<char*>(&size), sizeof(size));
     restart_data_buffer.resize(size);
+    fs_globals.read(restart_data_buffer.data(), size);
     ser.start_unpacking(restart_data_buffer.data(), size);
 
     // Duplicate data that we can remove
-- 
2.43.0


From 7c2335c090f8d48accda48e094d8802dccc06cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 06/31] fix: serialise StandardMem::ReadResp as itself and with
 its data

---
 src/sst/core/interfaces/stdMem.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/interfaces/stdMem.h b/src/sst/core/interfaces/stdMem.h
index f0af776..6af3531 100644
--- a/src/sst/core/interfaces/stdMem.h
+++ b/src/sst/core/interfaces/stdMem.h
@@ -420,11 +420,12 @@ public:
             SST_SER(pAddr);
             SST_SER(vAddr);
             SST_SER(size);
+            SST_SER(data);
             SST_SER(iPtr);
             SST_SER(tid);
         }
 
-        ImplementSerializable(SST::Interfaces::StandardMem::Read);
+        ImplementSerializable(SST::Interfaces::StandardMem::ReadResp);
     };
 
     /** Request to write data.
-- 
2.43.0


From 2a1c34475c155c6a17725d3c5f10ecb562075e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 07/31] fix: restore the publish and lock state of shared
 objects

---
 src/sst/core/shared/sharedObject.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..dbd990c 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -214,7 +214,14 @@ protected:
      */
     virtual ~SharedObjectData() {}
 
-    void serialize_order(serializer& ser) override { SST_SER(name); }
+    void serialize_order(serializer& ser) override
+    {
+        SST_SER(name);
+        SST_SER(share_count);
+        SST_SER(publish_count);
+        SST_SER(fully_published);
+        SST_SER(locked);
+    }
 
     ImplementVirtualSerializable(SharedObjectData);
 };
-- 
2.43.0


From 0b01f660f3b3305a6e5224fdc6e8b5eaeabfb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 08/31] fix: restore the coordinates of components

---
 src/sst/core/componentInfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/componentInfo.cc b/src/sst/core/componentInfo.cc
index d4151f7..973394e 100644
--- a/src/sst/core/componentInfo.cc
+++ b/src/sst/core/componentInfo.cc
@@ -229,7 +229,7 @@ ComponentInfo::serialize_order(SST::Core::Serialization::serializer& ser)
 
     SST_SER(defaultTimeBase);
 
-    // SST_SER(coordinates);
+    SST_SER(coordinates);
     SST_SER(subIDIndex);
     SST_SER(const_cast<std::string&>(slot_name));
     SST_SER(slot_num);
-- 
2.43.0


From 1bd11f53267283dae18322e23f193fd683262554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:32 +0000
Subject: [PATCH 09/31] fix: calling ordered clock handlers while one of them
 activates or deactivates handlers of its group

The positions of the loop over the handlers were not adjusted, so that handlers were skipped, called twice or lost.
---
 src/sst/core/clock.cc | 44 ++++++++-----------------------------------
 src/sst/core/clock.h  |  1 +
 2 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/sst/core/clock.cc b/src/sst/core/clock.cc
index 1210fa5..4d2d493 100644
--- a/src/sst/core/clock.cc
+++ b/src/sst/core/clock.cc
@@ -82,6 +82,7 @@ Clock::Group::activateHandler(HandlerBase* handler)
 
     handlers_[index] = handler;
     handler->index_  = index;
+    if ( index <= call_index_ ) ++call_index_;
 
     if ( currently_inactive ) clock_->activateGroup(this);
 }
@@ -93,6 +94,7 @@ Clock::Group::deactivateHandler(HandlerBase* handler)
     if ( handler->index_ < 0 ) return;
 
     // We need to move the handler below inactive_start_ and move everything up to that point up one space
+    if ( handler->index_ <= call_index_ ) --call_index_;
     --inactive_start_;
     for ( int i = handler->index_; i < inactive_start_; ++i ) {
         handlers_[i]         = handlers_[i + 1];
@@ -110,43 +112,13 @@ Clock::Group::deactivateHandler(HandlerBase* handler)
 bool
 Clock::Group::execute(Cycle_t current_cycle)
 {
-    int32_t call_index = 0;
-    for ( ; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            handler->toggleActiveState();
-            // Just break here. This will break us into the compacting version of the iteration in the loop below
-            break;
-        }
-    }
-
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then, then reset inactive_start_ to the appropriate place. This gets rid of the need to constantly delete
-    // individual elements, doing multiple memcpy's of all entries below. This also allows us to update the index for
-    // each handler.
-
-    int32_t copy_index = call_index;
-
-    // Need to increment call_index for the case where we broke out of the upper loop before completing.  If it did
-    // complete, then incrementing it won't hurt anything and the next loop will just be skipped.  It will also be
-    // skipped if the break was on the last entry in the vector
-    for ( ++call_index; call_index < inactive_start_; ++call_index ) {
-        HandlerBase* handler = handlers_[call_index];
-        if ( (*handler)(current_cycle) ) {
-            // Just mark it as inactive and continue on
-            handler->toggleActiveState();
-        }
-        else {
-            // Need to swap this with the handler at copy_index and increment copy_index.  For the swap, the current
-            // handler is active and the one at copy_index is inactive, by construction
-            swapActiveWithInactive(handlers_[call_index], handlers_[copy_index]);
-            ++copy_index;
-        }
+    // Handlers can activate and deactivate handlers of this group while they are being called, so the position of the
+    // current handler is kept up to date by activateHandler() and deactivateHandler().
+    for ( call_index_ = 0; call_index_ < inactive_start_; ++call_index_ ) {
+        HandlerBase* handler = handlers_[call_index_];
+        if ( (*handler)(current_cycle) ) deactivateHandler(handler);
     }
-
-    // inactive_start_ is now at copy_index
-    inactive_start_ = copy_index;
+    call_index_ = -1;
 
     if ( inactive_start_ == 0 ) {
         return true; // No active handlers
diff --git a/src/sst/core/clock.h b/src/sst/core/clock.h
index eb255c4..16b300c 100644
--- a/src/sst/core/clock.h
+++ b/src/sst/core/clock.h
@@ -53,6 +53,7 @@ private:
         int32_t                   inactive_start_ = 0;
         int32_t                   handler_count_  = 0;
         Clock*                    clock_          = nullptr;
+        int32_t                   call_index_     = -1; // Position of the handler being called, -1 if there is none
         int32_t                   index_;
 
     public:
-- 
2.43.0


From 20edf1eaafce07773c88e9979e6cbb30974a72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:10 +0000
Subject: [PATCH 10/31] fix: registering and unregistering clock handlers from
 a handler of the same clock

The vector of handlers was changed while Clock::execute() traversed it with iterators, so that freed memory was used or handlers were skipped.
---
 src/sst/core/clock.cc | 83 ++++++++++++++++++++-----------------------
 src/sst/core/clock.h  |  8 +++--
 2 files changed, 43 insertions(+), 48 deletions(-)

diff --git a/src/sst/core/clock.cc b/src/sst/core/clock.cc
index 4d2d493..962f68f 100644
--- a/src/sst/core/clock.cc
+++ b/src/sst/core/clock.cc
@@ -17,6 +17,7 @@
 #include "sst/core/simulation.h"
 #include "sst/core/timeConverter.h"
 
+#include <algorithm>
 #include <sys/time.h>
 
 namespace SST {
@@ -209,15 +210,23 @@ Clock::unregisterHandler(Clock::HandlerBase* handler, bool& empty)
         // Need to get index before marking it as inactive, which sets index to -1
         int  index = handler->index_;
         auto iter  = handlers_.begin() + index;
-        iter       = handlers_.erase(iter);
         handler->markAsInactive();
 
-        // Need to update the index for every handler below this one
-        for ( ; iter != handlers_.end(); ++iter ) {
-            (*iter)->index_ = index++;
+        if ( executing_ ) {
+            // The handlers are being called.  Leave an empty slot, which execute() will remove.
+            *iter        = nullptr;
+            empty_slots_ = true;
+        }
+        else {
+            iter = handlers_.erase(iter);
+
+            // Need to update the index for every handler below this one
+            for ( ; iter != handlers_.end(); ++iter ) {
+                (*iter)->index_ = index++;
+            }
         }
     }
-    empty = handlers_.empty();
+    empty = std::all_of(handlers_.begin(), handlers_.end(), [](HandlerBase* h) { return h == nullptr; });
 
     return 0;
 }
@@ -293,52 +302,36 @@ Clock::execute()
     // Derive the current cycle from the core time
     current_cycle_++;
 
-    auto sop_iter = handlers_.begin();
-    for ( ; sop_iter != handlers_.end(); ++sop_iter ) {
-        Clock::HandlerBase* handler = *sop_iter;
-
-        if ( (*handler)(current_cycle_) ) {
+    // Handlers can register and unregister handlers with this clock while they are being called.  Handlers that are
+    // registered are added at the end of the vector and are first called in the next cycle.  Handlers that are
+    // unregistered, or unregister themselves by returning true, leave an empty slot.
+    executing_         = true;
+    const size_t count = handlers_.size();
+    for ( size_t i = 0; i < count; ++i ) {
+        Clock::HandlerBase* handler = handlers_[i];
+        if ( nullptr == handler ) continue;
+
+        if ( (*handler)(current_cycle_) && handler->isActive() ) {
+            handlers_[handler->index_] = nullptr;
+            empty_slots_               = true;
             handler->markAsInactive();
-            // Just break here.  The handler has been marked inactive and the pointer will be overwritten or removed at
-            // the end as an empty slot.  This will break us into the compacting version of the iteration in the loop
-            // below
-            break;
         }
     }
-
-    // Check to see if it finished all the handlers without any of them removing themselves.  As soon as the first
-    // handler removes itself, we drop out of the original loop and enter this one that will compact the rest of the
-    // entries then delete any empty spaces at the end. This gets rid of the need to constantly delete individual
-    // elements, doing multiple memcpy's of all entries below. This also allows us to update the index for each handler.
-    if ( sop_iter != handlers_.end() ) {
-        // sop_iter becomes the location to copy to and we will start one past this calling the handler.  Then, we will
-        // copy the handler to the copy_iter and update its index.
-        auto   copy_iter = sop_iter; // Rename for clarity
-        size_t index     = copy_iter - handlers_.begin();
-
-        for ( auto call_iter = sop_iter + 1; call_iter != handlers_.end(); ++call_iter ) {
-            Clock::HandlerBase* handler = *call_iter;
-
-            if ( (*handler)(current_cycle_) ) {
-                // just mark as inactive.  The pointer will either get overwritten, or removed at the end as an empty
-                // slot
-                handler->markAsInactive();
-            }
-            else {
-                // Still active.  Need to copy up to copy_iter location and update the index
-                handler->index_ = index++;
-                *copy_iter      = *call_iter;
-
-                // Advance the copy location
-                ++copy_iter;
-            }
+    executing_ = false;
+
+    if ( empty_slots_ ) {
+        // Compact the vector all at once, which gets rid of the need to constantly delete individual elements, doing
+        // multiple memcpy's of all entries below.
+        size_t index = 0;
+        for ( auto* handler : handlers_ ) {
+            if ( nullptr == handler ) continue;
+            handler->index_    = index;
+            handlers_[index++] = handler;
         }
-
-        // Need to remove any empty locations in the vector
-        handlers_.erase(copy_iter, handlers_.end());
+        handlers_.resize(index);
+        empty_slots_ = false;
     }
 
-
     // Now we need to go through all the active groups.  This loop is a bit weird because each iteration through the
     // loop can do one of too things to the control variables:
 
diff --git a/src/sst/core/clock.h b/src/sst/core/clock.h
index 16b300c..94cdf14 100644
--- a/src/sst/core/clock.h
+++ b/src/sst/core/clock.h
@@ -366,9 +366,11 @@ private:
 
     Cycle_t       current_cycle_ = 0;
     TimeConverter period_;
-    SimTime_t     next_      = 0;
-    bool          scheduled_ = false;
-    Simulation*   sim_       = nullptr;
+    SimTime_t     next_        = 0;
+    bool          scheduled_   = false;
+    bool          executing_   = false; // True while the handlers are being called
+    bool          empty_slots_ = false; // True if handlers_ has empty slots (only while the handlers are being called)
+    Simulation*   sim_         = nullptr;
 
     void serialize_order(SST::Core::Serialization::serializer& ser) override;
     ImplementSerializable(SST::Clock)
-- 
2.43.0


From 57a0152e0c78c696d71764c13ce7824d628e1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:20 +0000
Subject: [PATCH 11/31] fix: maximum of floating-point statistics whose values
 are all negative

---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..087e17e 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -164,7 +164,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From aebfcf68dc380697fdb108271499d6adab29a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:20 +0000
Subject: [PATCH 12/31] fix: histogram bins with a minimum that is not a
 multiple of the bin width, N-fold data

---
 src/sst/core/statapi/stathistogram.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..63ed34e 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -134,16 +134,17 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
+        m_itemsBinnedCount += N;
 
         // Figure out what the starting bin is and find it in the map
         // To support signed and unsigned values along with floating point types,
         // the calculation to find the bin_start value must be done in floating point
         // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
+        // Bins start at the minimum value, in steps of the bin width
+        double      calc1     = (double)(value - m_minValue) / (double)m_binWidth;
         double      calc2     = floor(calc1); // Find the floor of the value
         double      calc3     = m_binWidth * calc2;
-        BinDataType bin_start = (BinDataType)calc3;
+        BinDataType bin_start = (BinDataType)calc3 + m_minValue;
         //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
         //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
 
@@ -306,11 +307,10 @@ private:
 
         // Do we also need to dump the bin counts on output
         if ( true == m_dumpBinsOnOutput ) {
-            BinDataType currentBinValue = getBinsMinValue();
             for ( uint32_t y = 0; y < getNumBins(); y++ ) {
+                // Same computation as in addData, so that floating point bin starts are equal
+                BinDataType currentBinValue = (BinDataType)((double)m_binWidth * y) + m_minValue;
                 statOutput->outputField(m_Fields[x++], getBinCountByBinStart(currentBinValue));
-                // Increment the currentBinValue to get the next bin
-                currentBinValue += getBinWidth();
             }
         }
     }
-- 
2.43.0


From 6b10889fb23a1cad2dc1fa3ba90767aaf4a94b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:43 +0000
Subject: [PATCH 13/31] fix: SharedMap::upper_bound returned the lower bound

---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From ba2e50d8901519d9d399ba62f4415125355b87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:43 +0000
Subject: [PATCH 14/31] fix: writing to an existing key of a SharedMap with
 NO_VERIFY had no effect on the writing rank

---
 src/sst/core/shared/sharedMap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index 8a0d96c..a25cca5 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -322,7 +322,11 @@ private:
             auto success = map.insert(std::make_pair(key, value));
             if ( !success.second ) {
                 // Wrote to a key that already existed
-                if ( verify != NO_VERIFY && value != success.first->second ) {
+                if ( verify == NO_VERIFY ) {
+                    // In-place modification, as sent to the other ranks
+                    success.first->second = value;
+                }
+                else if ( value != success.first->second ) {
                     Private::getSimulationOutput().fatal(
                         CALL_INFO, 1, "ERROR: wrote two different values to same key in SharedMap %s\n", name.c_str());
                 }
-- 
2.43.0


From 37f53275bbe43f6a463dffb06d1087927afe048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:43 +0000
Subject: [PATCH 15/31] fix: SharedMap and SharedSet used size and verify type
 without the lock

---
 src/sst/core/shared/sharedMap.h | 7 ++++++-
 src/sst/core/shared/sharedSet.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index a25cca5..d653364 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -304,6 +304,7 @@ private:
 
         void setVerify(verify_type v_type)
         {
+            std::lock_guard<std::mutex> lock(mtx);
             if ( v_type != verify && verify != VERIFY_UNINITIALIZED ) {
                 Private::getSimulationOutput().fatal(
                     CALL_INFO, 1, "ERROR: Two different verify_types specified for SharedMap %s\n", name.c_str());
@@ -312,7 +313,11 @@ private:
             if ( change_set ) change_set->setVerify(v_type);
         }
 
-        size_t getSize() const { return map.size(); }
+        size_t getSize() const
+        {
+            std::lock_guard<std::mutex> lock(mtx);
+            return map.size();
+        }
 
         void update_write(const keyT& key, const valT& value)
         {
diff --git a/src/sst/core/shared/sharedSet.h b/src/sst/core/shared/sharedSet.h
index 436792c..4a11706 100644
--- a/src/sst/core/shared/sharedSet.h
+++ b/src/sst/core/shared/sharedSet.h
@@ -272,6 +272,7 @@ private:
 
         void setVerify(verify_type v_type)
         {
+            std::lock_guard<std::mutex> lock(mtx);
             if ( v_type != verify && verify != VERIFY_UNINITIALIZED ) {
                 Private::getSimulationOutput().fatal(
                     CALL_INFO, 1, "ERROR: Type different verify_types specified for SharedSet %s\n", name.c_str());
-- 
2.43.0


From d5db63bfdff30d7588f6c28b57111d98bb27e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:09 +0000
Subject: [PATCH 16/31] fix: keep the parameters of a re-enabled subcomponent
 statistic

enableStatistic() on a subcomponent for a statistic that was already
enabled stored the parameters in the subcomponent's own (never read) map
instead of the one of the component at the root, so they were lost.
---
 src/sst/core/model/configComponent.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/model/configComponent.cc b/src/sst/core/model/configComponent.cc
index e891d8f..d4c1c7d 100644
--- a/src/sst/core/model/configComponent.cc
+++ b/src/sst/core/model/configComponent.cc
@@ -325,10 +325,11 @@ ConfigComponent::enableStatistic(const std::string& statisticName, const SST::Pa
         }
     }
 
-    ConfigStatistic& cs = statistics_[stat_id];
-    cs.id               = stat_id;
-    cs.params.insert(params);
-    return &cs;
+    // The configuration of a statistic is kept by the component at the root of the tree
+    ConfigStatistic* cs = insertStatistic(stat_id);
+    cs->id              = stat_id;
+    cs->params.insert(params);
+    return cs;
 }
 
 bool
-- 
2.43.0


From d5f149fd88edb5b745bb39659a2e729ca9afa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:46 +0000
Subject: [PATCH 17/31] fix: report a dangling link that is connected to a
 subcomponent

Components are stored by component id, so looking up a subcomponent's id
directly ended the run with an uncaught exception.
---
 src/sst/core/model/configGraph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/configGraph.cc b/src/sst/core/model/configGraph.cc
index c4b68dc..750e535 100644
--- a/src/sst/core/model/configGraph.cc
+++ b/src/sst/core/model/configGraph.cc
@@ -263,7 +263,7 @@ ConfigGraph::checkForStructuralErrors()
         // If we do this check, we know component_[0] is set
         else if ( clink->component_[1] == UNSET_COMPONENT_ID && !clink->nonlocal_ ) {
             output.output("WARNING:  Found dangling link: %s.  It is connected on one side to component %s.\n",
-                clink->name_.c_str(), comps_[clink->component_[0]]->name.c_str());
+                clink->name_.c_str(), findComponent(clink->component_[0])->getFullName().c_str());
             found_error = true;
         }
     }
-- 
2.43.0


From 069f038d765143112f38653b2db42acf0f7dc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:16 +0000
Subject: [PATCH 18/31] fix: let sst.single place subcomponents with their
 component

Only the rank of the component itself was set, so with several ranks the
links of subcomponents were dropped when the graph was distributed.
---
 src/sst/core/impl/partitioners/singlepart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/impl/partitioners/singlepart.cc b/src/sst/core/impl/partitioners/singlepart.cc
index e9e9c2f..4ab8ad9 100644
--- a/src/sst/core/impl/partitioners/singlepart.cc
+++ b/src/sst/core/impl/partitioners/singlepart.cc
@@ -26,6 +26,6 @@ SSTSinglePartition::performPartition(ConfigGraph* graph)
     ConfigComponentMap_t& compMap = graph->getComponentMap();
 
     for ( auto comp : compMap ) {
-        comp->rank = RankInfo(0, 0);
+        comp->setRank(RankInfo(0, 0));
     }
 }
-- 
2.43.0


From 95bcf75f4bc554a94da1580e5ba873f0a74c929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 19/31] fix: let a scoped parameter set keep the precedence of
 local parameters

---
 src/sst/core/params.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 1a617ff..b100ab6 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -219,7 +219,8 @@ Params::get_scoped_params(const std::string& scope) const
         for ( auto value : *map ) {
             std::string key = keyMapReverse[value.first].substr(0, prefix.length());
             if ( key == prefix ) {
-                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second);
+                // Maps are ordered from highest to lowest precedence, so keep what is already there
+                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second, false);
             }
         }
     }
-- 
2.43.0


From 0ae4f390572d2966c8f4b481ec29f0cb496b95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 20/31] fix: do not report the name of a shared parameter set
 as a parameter

---
 src/sst/core/params.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index b100ab6..e1930da 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -201,6 +201,8 @@ Params::getKeys() const
     std::set<std::string> ret;
     for ( auto map : data ) {
         for ( auto value : *map ) {
+            // ID 0 is reserved for holding metadata
+            if ( value.first == 0 ) continue;
             ret.insert(keyMapReverse[value.first]);
         }
     }
@@ -336,6 +338,8 @@ Params::serialize_order(SST::Core::Serialization::serializer& ser)
             // exists will be ignored.
             for ( auto& map : data ) {
                 for ( auto& kvp : *map ) {
+                    // ID 0 is reserved for holding metadata
+                    if ( kvp.first == 0 ) continue;
                     tmp_map.insert(std::make_pair(getParamName(kvp.first), kvp.second));
                 }
             }
-- 
2.43.0


From 61e24f64ccc27cf9a6a31e7b978b0541f9de59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:45 +0000
Subject: [PATCH 21/31] fix: write the whole header of the text statistic
 output to its file

---
 src/sst/core/statapi/statoutputtxt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/statapi/statoutputtxt.cc b/src/sst/core/statapi/statoutputtxt.cc
index 28fde8d..59f5fa7 100644
--- a/src/sst/core/statapi/statoutputtxt.cc
+++ b/src/sst/core/statapi/statoutputtxt.cc
@@ -74,13 +74,13 @@ StatisticOutputTextBase::startOfSimulation()
         if ( true == m_outputSimTime ) {
             // Add a Simulation Time Header to the front
             m_outputBuffer = "SimTime";
-            printf("%s; ", m_outputBuffer.c_str());
+            print("%s; ", m_outputBuffer.c_str());
         }
 
         if ( true == m_outputRank ) {
             // Add a Rank Header to the front
             m_outputBuffer = "Rank";
-            printf("%s; ", m_outputBuffer.c_str());
+            print("%s; ", m_outputBuffer.c_str());
         }
 
         // Output all Headers
@@ -88,7 +88,7 @@ StatisticOutputTextBase::startOfSimulation()
 
         while ( it_v != getFieldInfoArray().end() ) {
             statField = *it_v;
-            m_outputBuffer += statField->getStatName();
+            m_outputBuffer = statField->getStatName();
             m_outputBuffer += ".";
             m_outputBuffer += statField->getFieldName();
 
-- 
2.43.0


From 7b5943ff91006a7bd992f83e5f1d66699f6063f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 22/31] fix: let the output file be opened again after it was
 closed

---
 src/sst/core/output.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 3f889fd..f73634e 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -329,6 +329,7 @@ Output::closeSSTTargetFile()
         // If the access count is zero, and the file has been opened, then close it
         if ( (0 == *m_targetFileAccessCountRef) && (nullptr != *m_targetFileHandleRef) && (FILE == m_targetLoc) ) {
             fclose(*m_targetFileHandleRef);
+            *m_targetFileHandleRef = nullptr;
         }
     }
 }
-- 
2.43.0


From 8b9aa67f796b2a57fed15a1b2d75fdff3d92a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 23/31] fix: give an uninitialized output object a valid target
 to flush

---
 src/sst/core/output.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index f73634e..62f1b0c 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -67,6 +67,7 @@ Output::Output()
     m_verboseMask  = 0;
     ;
     m_targetLoc = NONE;
+    m_targetOutputRef = &stdout;
 }
 
 void
-- 
2.43.0


From bb76617dd054aa4fa9b8c64f74ee41d1aa124d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 24/31] fix: do not interpret percent signs of an output prefix
 as conversions

---
 src/sst/core/output.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sst/core/output.cc b/src/sst/core/output.cc
index 62f1b0c..f7069af 100644
--- a/src/sst/core/output.cc
+++ b/src/sst/core/output.cc
@@ -434,6 +434,11 @@ Output::buildPrefixString(uint32_t line, const std::string& file, const std::str
     // copy the remainder of the string from the start index to the end.
     rtnstring += m_outputPrefix.substr(startindex);
 
+    // The prefix becomes part of a format string
+    for ( size_t i = rtnstring.find('%'); i != std::string::npos; i = rtnstring.find('%', i + 2) ) {
+        rtnstring.insert(i, 1, '%');
+    }
+
     return rtnstring;
 }
 
-- 
2.43.0


From 6fe89fd300484d7c146a23e8c1d4ddce8e7aac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 25/31] fix: parameters of one statistic of a group no longer
 given to the next

The JSON reader collected the parameters of all statistics of a statistics
group in one record that was never cleared.
---
 src/sst/core/model/json/jsonmodel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index e993001..4e15fa8 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -591,7 +591,6 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::StatOptions_Params_key:         // Parse params -> StatOptions_Params
     case State::StatGroup_Output_key:           // Parse output config -> StatGroup_Output
     case State::StatGroup_Output_Params_key:    // Parse params -> StatGroup_Output_Params
-    case State::StatGroup_StatArray:            // Parse statistic -> StatGroup_Stat
     case State::StatGroup_Stat_Params_key:      // Parse params -> STATGRP_OBJ_STATOPT_PARAMS
     case State::Comp_StatOptions_Params_key:    // Parse params
     case State::Comp_Stat_Params_key:           // Parse params
@@ -617,6 +616,7 @@ SSTConfigSaxHandler::start_object([[maybe_unused]] std::size_t elements)
     case State::PortModArray: // Parse port module
         shadow_port_module_.reset();
         break;
+    case State::StatGroup_StatArray: // Parse statistic -> StatGroup_Stat
     case State::Comp_StatArray:    // Parse statstic object
     case State::SubComp_StatArray: // Parse statstic object
     case State::PortMod_StatArray:
-- 
2.43.0


From 41bbd23b5bee20b49b802a508e177ff4efe70fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 26/31] fix: accept the end of params in statistics_options

The JSON reader rejected every (sub)component or port module whose
statistics_options have params.
---
 src/sst/core/model/json/jsonmodel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index 4e15fa8..c8202a4 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -673,6 +673,9 @@ SSTConfigSaxHandler::end_object()
     case State::Comp_Stat_Params:
     case State::SubComp_Stat_Params:
     case State::PortMod_Stat_Params:
+    case State::Comp_StatOptions_Params:
+    case State::SubComp_StatOptions_Params:
+    case State::PortMod_StatOptions_Params:
     case State::Link_Left:
     case State::Link_Right:
         break;
-- 
2.43.0


From 8464fd8f154e557be599d3cfda1c1c76f92605bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 27/31] fix: shared parameter sets of port modules take effect

The JSON reader collected params_shared_sets of a port module but never
added them to it.
---
 src/sst/core/model/json/jsonmodel.cc |  2 +-
 src/sst/core/model/json/jsonmodel.h  | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/sst/core/model/json/jsonmodel.cc b/src/sst/core/model/json/jsonmodel.cc
index c8202a4..630ba3f 100644
--- a/src/sst/core/model/json/jsonmodel.cc
+++ b/src/sst/core/model/json/jsonmodel.cc
@@ -425,7 +425,7 @@ SSTConfigSaxHandler::string(std::string& val)
         shadow_component_stack_.back().comp->addSharedParamSet(val);
         break;
     case State::PortMod_SharedParamsArray:
-        shadow_port_module_.shared_param_sets.push_back(val);
+        shadow_port_module_.pm->addSharedParamSet(val);
         break;
     case State::Comp_Stat:
     case State::SubComp_Stat:
diff --git a/src/sst/core/model/json/jsonmodel.h b/src/sst/core/model/json/jsonmodel.h
index f4e3c30..7635cd9 100644
--- a/src/sst/core/model/json/jsonmodel.h
+++ b/src/sst/core/model/json/jsonmodel.h
@@ -134,12 +134,11 @@ private:
 
     struct JSONShadowPortModule
     {
-        std::string              port = "";
-        std::string              type = "";
-        Params                   params;
-        uint8_t                  stat_load_level = STATISTICLOADLEVELUNINITIALIZED;
-        std::vector<std::string> shared_param_sets;
-        ConfigPortModule*        pm = nullptr;
+        std::string       port = "";
+        std::string       type = "";
+        Params            params;
+        uint8_t           stat_load_level = STATISTICLOADLEVELUNINITIALIZED;
+        ConfigPortModule* pm              = nullptr;
 
         void reset()
         {
@@ -147,7 +146,6 @@ private:
             type = "";
             params.clear();
             stat_load_level = STATISTICLOADLEVELUNINITIALIZED;
-            shared_param_sets.clear();
             pm = nullptr;
         }
     };
-- 
2.43.0


From dbca00de881a7dd8ddc55063b2f104ffead395c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 28/31] fix: write full names of the components of a statistics
 group

The reader looks components up by their full name; the name of a
subcomponent is that of its slot only.
---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 27a3d1b..03c1c74 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -356,7 +356,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
                 auto compArray = nlohmann::ordered_json::array();
                 for ( SST::ComponentId_t id : grp.second.components ) {
                     const SST::ConfigComponent* comp = graph->findComponent(id);
-                    compArray.push_back(comp->name);
+                    compArray.push_back(comp->getFullName());
                 }
                 sgRecord["components"] = compArray;
             }
-- 
2.43.0


From 09e176429d973d80129276183723869ec5795426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 29/31] fix: write statistics of a group that have no
 parameters

They were left out of a JSON configuration, so they were not collected in
the run that used it.
---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 03c1c74..cdbe7b2 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -341,14 +341,12 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
 
             auto statsArray = nlohmann::ordered_json::array();
             for ( auto& i : grp.second.statMap ) {
-                if ( !i.second.empty() ) {
-                    auto statRecord    = nlohmann::ordered_json::object();
-                    statRecord["name"] = i.first;
-                    for ( auto const& param : i.second.getKeys() ) {
-                        statRecord["params"][param] = i.second.find<std::string>(param);
-                    }
-                    statsArray.push_back(statRecord);
+                auto statRecord    = nlohmann::ordered_json::object();
+                statRecord["name"] = i.first;
+                for ( auto const& param : i.second.getKeys() ) {
+                    statRecord["params"][param] = i.second.find<std::string>(param);
                 }
+                statsArray.push_back(statRecord);
             }
             sgRecord["statistics"] = statsArray;
 
-- 
2.43.0


From 6b8a3b3f9d3a8b9d86fb76f11cbe2f4ab1fe5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:35 +0000
Subject: [PATCH 30/31] fix: write parameters given for all statistics

The parameters of enableAllStatistics were left out of a JSON configuration.
---
 .../core/model/cfgoutput/jsonConfigOutput.cc    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index cdbe7b2..1b50964 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -108,6 +108,10 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
             if ( comp_itr->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
                 comp_record["statistics_options"]["statistic_load_level"] = comp_itr->statLoadLevel;
             }
+            for ( auto const& param : comp_itr->allStatConfig.params.getKeys() ) {
+                comp_record["statistics_options"]["params"][param] =
+                    comp_itr->allStatConfig.params.find<std::string>(param);
+            }
 
             // params
             for ( auto const& params_itr : comp_itr->getParamsLocalKeys() ) {
@@ -174,6 +178,11 @@ JSONConfigGraphOutput::outputComponents(const Config* cfg, ConfigGraph* graph, s
                             pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                             pm_record["statistics_options"]["enable_all_statistics"] = true;
                         }
+                        for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                            pm_record["statistics_options"]["enable_all_statistics"] = true;
+                            pm_record["statistics_options"]["params"][param] =
+                                port_vec_itr.all_stat_config.find<std::string>(param);
+                        }
                         for ( auto const& param : port_vec_itr.params.getKeys() ) {
                             pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                         }
@@ -224,6 +233,9 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
     if ( sub->statLoadLevel != STATISTICLOADLEVELUNINITIALIZED ) {
         record["statistics_options"]["statistic_load_level"] = sub->statLoadLevel;
     }
+    for ( auto const& param : sub->allStatConfig.params.getKeys() ) {
+        record["statistics_options"]["params"][param] = sub->allStatConfig.params.find<std::string>(param);
+    }
 
     // params
     for ( auto const& param : sub->getParamsLocalKeys() ) {
@@ -284,6 +296,11 @@ JSONConfigGraphOutput::outputSubComponent(ConfigComponent* sub, std::ofstream& o
                     pm_record["statistics_options"]["statistic_load_level"]  = port_vec_itr.stat_load_level;
                     pm_record["statistics_options"]["enable_all_statistics"] = true;
                 }
+                for ( auto const& param : port_vec_itr.all_stat_config.getKeys() ) {
+                    pm_record["statistics_options"]["enable_all_statistics"] = true;
+                    pm_record["statistics_options"]["params"][param] =
+                        port_vec_itr.all_stat_config.find<std::string>(param);
+                }
                 for ( auto const& param : port_vec_itr.params.getKeys() ) {
                     pm_record["params"][param] = port_vec_itr.params.find<std::string>(param);
                 }
-- 
2.43.0


From 3b1b590ca00f7bd41039a3f617f5cf6287e92637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:36 +0000
Subject: [PATCH 31/31] fix: write the output frequency of a statistics group
 in full precision

It was written with six digits, so a run that used the written
configuration output statistics at other times.
---
 src/sst/core/model/cfgoutput/jsonConfigOutput.cc   | 2 +-
 src/sst/core/model/cfgoutput/pythonConfigOutput.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
index 1b50964..3c95759 100644
--- a/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/jsonConfigOutput.cc
@@ -341,7 +341,7 @@ JSONConfigGraphOutput::outputStatisticsGroups(ConfigGraph* graph, std::ofstream&
             sgRecord["name"] = grp.second.name;
 
             if ( grp.second.outputFrequency.getValue() != 0 ) {
-                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI();
+                sgRecord["frequency"] = grp.second.outputFrequency.toStringBestSI(0);
             }
 
             // output
diff --git a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
index 61603ac..7ada229 100644
--- a/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
+++ b/src/sst/core/model/cfgoutput/pythonConfigOutput.cc
@@ -328,7 +328,7 @@ PythonConfigGraphOutput::generateStatGroup(const ConfigGraph* graph, const Confi
 
     fprintf(outputFile, "%s = sst.StatisticGroup(\"%s\")\n", pyGroupName, esGroupName);
     if ( grp.outputFrequency.getValue() != 0 ) {
-        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName, grp.outputFrequency.toStringBestSI().c_str());
+        fprintf(outputFile, "%s.setFrequency(\"%s\")\n", pyGroupName, grp.outputFrequency.toStringBestSI(0).c_str());
     }
     if ( grp.outputID != 0 ) {
         const ConfigStatOutput& out = graph->getStatOutput(grp.outputID);
-- 
2.43.0

