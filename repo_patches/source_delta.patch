From 87faa743eed917859ad365e6f66d1b8c58c5750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 01/43] fix: keep the order tag of links that cross partitions
 in a checkpoint

---
 src/sst/core/link.cc       | 6 +++---
 src/sst/core/simulation.cc | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index 13189d3..a987547 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -134,7 +134,8 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         */
         SST_SER(s->type);
         SST_SER(s->mode);
-        SST_SER(s->tag);
+        // The order tag for the events delivered to this link is held by the pair link
+        SST_SER(s->pair_link->tag);
 
         /*
           Store handler for handler links, or store the contents
@@ -317,7 +318,7 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         */
         SST_SER(s->type);
         SST_SER(s->mode);
-        SST_SER(s->tag);
+        SST_SER(s->pair_link->tag);
 
         /*
           Get handler for handler links, or restore the contents
@@ -415,7 +416,6 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         if ( is_restart_sync ) {
             s->pair_link->type = Link::SYNC;
             s->pair_link->mode = s->mode;
-            s->pair_link->tag  = s->tag;
 
             s->pair_link->defaultTimeBase = 1;
             s->pair_link->id              = s->getId();
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 5589aa7..c27caa6 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2412,7 +2412,6 @@ Simulation::discoverRemoteLinks()
                 Link* link = link_restart_tracking[local_id];
                 link->type = Link::SYNC;
                 link->mode = link->pair_link->mode;
-                link->tag  = link->pair_link->tag;
 
                 link->defaultTimeBase = 1;
                 link->id              = link->pair_link->getId();
-- 
2.43.0


From 0c45ea6c9fb0dd2e5a005e0b1d832e151c7bc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 02/43] fix: keep threads synchronized when interthread links
 deliver directly

---
 src/sst/core/sync/threadSyncDirectSkip.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/threadSyncDirectSkip.h b/src/sst/core/sync/threadSyncDirectSkip.h
index d6c5ddb..11f1e49 100644
--- a/src/sst/core/sync/threadSyncDirectSkip.h
+++ b/src/sst/core/sync/threadSyncDirectSkip.h
@@ -67,7 +67,9 @@ public:
     /** Clear interactive flags before next run */
     void clearFlags() override;
 
-    SimTime_t getNextSyncTime() override { return nextSyncTime - 1; }
+    /** Links write straight into the receiving thread's TimeVortex, so the threads must not drift apart by more than
+     * the minimum latency between them */
+    SimTime_t findSyncInterval() override { return my_max_period; }
 
     /** Register a Link which this Sync Object is responsible for */
     void           registerLink(Link* UNUSED(link)) override {}
-- 
2.43.0


From 6a9846b1c6d9e65c9d0d9c2ed71555ef00062b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 03/43] fix: queue the exit action at most once and delete it
 once

---
 src/sst/core/exit.cc       | 9 +++++++--
 src/sst/core/exit.h        | 8 ++++++++
 src/sst/core/simulation.cc | 2 ++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/exit.cc b/src/sst/core/exit.cc
index c2e994e..fe89e0e 100644
--- a/src/sst/core/exit.cc
+++ b/src/sst/core/exit.cc
@@ -64,7 +64,11 @@ Exit::refDec(uint32_t thread)
     if ( single_rank_ && num_threads_ == 1 && ref_count_ == 0 ) {
         end_time_       = Simulation::getSimulation()->getCurrentSimCycle();
         Simulation* sim = Simulation::getSimulation();
-        sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        // Count may reach 0 again before the object leaves the queue
+        if ( !queued_ ) {
+            queued_ = true;
+            sim->insertActivity(sim->getCurrentSimCycle() + 1, this);
+        }
     }
     else if ( thread_counts_[thread] == 0 ) {
         SimTime_t end_time_new = Simulation::getSimulation()->getCurrentSimCycle();
@@ -87,7 +91,8 @@ Exit::getRefCount()
 void
 Exit::execute()
 {
-    // Only gets put into queue once, no need to reschedule
+    // Gets put back into the queue if the count reaches 0 again, no need to reschedule
+    queued_ = false;
     check();
 }
 
diff --git a/src/sst/core/exit.h b/src/sst/core/exit.h
index 6449be8..1ae70e5 100644
--- a/src/sst/core/exit.h
+++ b/src/sst/core/exit.h
@@ -113,6 +113,13 @@ public:
     */
     unsigned int getGlobalCount() { return global_count_; }
 
+    /**
+       Is this object currently in the TimeVortex?
+
+       @return true if it is in the TimeVortex, which then owns it
+    */
+    bool isQueued() const { return queued_; }
+
     // Exit should not be serialized. It will be created new on
     // restart and Components store there primary component state and
     // reregister with Exit on restart.
@@ -128,6 +135,7 @@ private:
     unsigned int* thread_counts_ = nullptr;
     unsigned int  global_count_  = 0;
     SimTime_t     end_time_      = 0;
+    bool          queued_        = false;
     bool          single_rank_   = true;
 
     Core::ThreadSafe::Spinlock slock_;
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index c27caa6..8b806a5 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -200,7 +200,9 @@ Simulation::~Simulation()
 
     // Delete the timeVortex first.  This will delete all events left
     // in the queue, as well as the Sync, Exit and Clock objects.
+    bool exit_in_queue = m_exit != nullptr && m_exit->isQueued();
     delete timeVortex;
+    if ( exit_in_queue ) m_exit = nullptr;
 
     // For serial runs, the sync object is not in the timevortex
     if ( num_ranks.rank == 1 && num_ranks.thread == 1 ) delete syncManager;
-- 
2.43.0


From 341a98658584a568e4b6be8b23d7768cc0123ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 04/43] fix: allow parallel rank syncs on ranks without links
 to other ranks

---
 src/sst/core/threadsafe.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index db32fcb..2d1b54d 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -216,6 +216,7 @@ public:
 
     bool try_insert(const T& arg)
     {
+        if ( 0 == dsize ) return false;
         cell_t* cell = nullptr;
         size_t  pos  = wPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
@@ -240,6 +241,7 @@ public:
 
     bool try_remove(T& res)
     {
+        if ( 0 == dsize ) return false;
         cell_t* cell = nullptr;
         size_t  pos  = rPtr.load(std::memory_order_relaxed);
         for ( ;; ) {
-- 
2.43.0


From 491b6f73629b8cf1a00694cbae0a1bbc09755dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 05/43] fix: threads may look at the next activity of a binned
 queue together

---
 src/sst/core/impl/timevortex/timeVortexBinnedMap.cc |  2 +-
 src/sst/core/impl/timevortex/timeVortexBinnedMap.h  | 13 +++++++++----
 src/sst/core/simulation.cc                          |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index 5832321..43bc1c3 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -148,7 +148,7 @@ TimeVortexBinnedMapBase<TS>::front()
     // Check to see if we need to look at the next timeunit
     if ( ret == nullptr ) {
         auto it = map.begin();
-        ret     = it->second->front();
+        if ( it != map.end() ) ret = it->second->front();
     }
     // if ( TS ) slock.unlock();
     return ret;
diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index d3f01de..f3dcc8c 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -109,12 +109,17 @@ private:
             return ret;
         }
 
-        // front only happens by one thread
+        // front happens by several threads during a sync
         Activity* front()
         {
-            if ( 0 == activities.size() ) return nullptr;
-            if ( !sorted ) sort();
-            return activities.back();
+            Activity* ret = nullptr;
+            tu_lock.lock();
+            if ( 0 != activities.size() ) {
+                if ( !sorted ) sort();
+                ret = activities.back();
+            }
+            tu_lock.unlock();
+            return ret;
         }
 
         void sort();
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 8b806a5..e643646 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -555,7 +555,7 @@ Simulation::requireLibrary(const std::string& name)
 SimTime_t
 Simulation::getNextActivityTime() const
 {
-    return timeVortex->front()->getDeliveryTime();
+    return timeVortex->empty() ? MAX_SIMTIME_T : timeVortex->front()->getDeliveryTime();
 }
 
 SimTime_t
-- 
2.43.0


From 656691b1d4f210f0e4d3d7b768d1e366cea0daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 06/43] fix: checkpoint the contents of a binned event queue

---
 .../core/impl/timevortex/timeVortexBinnedMap.h   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index f3dcc8c..b4b4157 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -124,6 +124,12 @@ private:
 
         void sort();
 
+        // Add the held activities to a list, only happens while no other thread uses the queue
+        void getContents(std::vector<Activity*>& list) const
+        {
+            list.insert(list.end(), activities.begin(), activities.end());
+        }
+
         inline bool operator<(const TimeUnit& rhs) { return this->sort_time < rhs.sort_time; }
 
         /** To use with STL priority queues, that order in reverse. */
@@ -159,9 +165,13 @@ public:
     uint64_t getCurrentDepth() const override { return current_depth; }
     uint64_t getMaxDepth() const override { return max_depth; }
 
-    // TODO: Implement getContents(). For now, just return an empty
-    // vector.
-    void getContents(std::vector<Activity*>& UNUSED(activities)) const override {}
+    /** Copy out everything held in the TimeVortex */
+    void getContents(std::vector<Activity*>& activities) const override
+    {
+        current_time_unit->getContents(activities);
+        for ( auto& x : map )
+            x.second->getContents(activities);
+    }
 
 private:
     // Should only ever be accessed by the "active" thread.  Not safe
-- 
2.43.0


From 6881e41db9b0cbad3fb506cdcd4d833baa662e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 07/43] fix: threads without outgoing links take part in
 checkpoints

---
 src/sst/core/simulation.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index e643646..a7e095a 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -650,7 +650,8 @@ Simulation::processGraphInfo(ConfigGraph& graph, const RankInfo& UNUSED(myRank),
 
     // Determine if this thread is independent.  That means there is
     // no need to synchronize with any other threads or ranks.
-    if ( min_part == MAX_SIMTIME_T && num_cross_thread_links == 0 ) {
+    // Checkpoints need all of them, also if no links cross.
+    if ( min_part == MAX_SIMTIME_T && num_cross_thread_links == 0 && !checkpoint_action_->getPeriod().isInitialized() ) {
         independent = true;
     }
     else {
@@ -2354,7 +2355,8 @@ void
 Simulation::checkIndependent()
 {
     std::pair<SimTime_t, SimTime_t> sync_intervals = syncManager->getSyncIntervals();
-    if ( sync_intervals.first == MAX_SIMTIME_T && sync_intervals.second == MAX_SIMTIME_T ) {
+    if ( sync_intervals.first == MAX_SIMTIME_T && sync_intervals.second == MAX_SIMTIME_T &&
+         !checkpoint_action_->getPeriod().isInitialized() ) {
         independent = true;
     }
 }
-- 
2.43.0


From 9645dc009e2d464634fad360d52d2c3f58849b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 08/43] fix: do not write checkpoints after the end of the
 simulation

---
 src/sst/core/checkpointAction.cc |  3 ++-
 src/sst/core/sync/syncManager.cc | 17 +++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/sst/core/checkpointAction.cc b/src/sst/core/checkpointAction.cc
index 24ebfd0..55ee4ab 100644
--- a/src/sst/core/checkpointAction.cc
+++ b/src/sst/core/checkpointAction.cc
@@ -145,7 +145,8 @@ void
 CheckpointAction::execute()
 {
     Simulation* sim = Simulation::getSimulation();
-    createCheckpoint(sim);
+    // Nothing is left to restart once all primary components have agreed to end
+    if ( !sim->getExit()->isQueued() ) createCheckpoint(sim);
 
     next_sim_time_ += period_.getFactor();
     sim->insertActivity(next_sim_time_, this);
diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index 7613926..e9a2ef7 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -622,7 +622,11 @@ SyncManager::execute()
         if ( generate_ckpt ) {
             checkpoint_->setCheckpoint();
         }
-        next_checkpoint_time = checkpoint_->check(getDeliveryTime());
+
+        // Nothing is left to restart once all primary components have agreed to end
+        if ( exit_ != nullptr && rank_.thread == 0 ) exit_->check();
+        RankExecBarrier_[3].wait();
+        if ( exit_->getGlobalCount() != 0 ) next_checkpoint_time = checkpoint_->check(getDeliveryTime());
 
         if ( interactive_enabled ) {
             rankSync_->getFlags(enter_interactive, enter_shutdown, shutdown_mode);
@@ -645,14 +649,6 @@ SyncManager::execute()
             }
         }
 
-        // No barrier needed. Either the check failed and no
-        // checkpoint happened, so no global activity, or the
-        // checkpoint happened and the last thing that happens in the
-        // checkpoint code is a barrier.
-        if ( exit_ != nullptr && rank_.thread == 0 ) exit_->check();
-
-        RankExecBarrier_[3].wait();
-
         if ( exit_->getGlobalCount() == 0 ) {
             endSimulation(exit_->getEndTime());
         }
@@ -697,7 +693,8 @@ SyncManager::execute()
             if ( ckpt_generate_.load() ) {
                 checkpoint_->setCheckpoint();
             }
-            next_checkpoint_time = checkpoint_->check(getDeliveryTime());
+            // Nothing is left to restart once all primary components have agreed to end
+            if ( exit_->getRefCount() != 0 ) next_checkpoint_time = checkpoint_->check(getDeliveryTime());
             ckpt_generate_.store(0);
 
             if ( interactive_enabled ) {
-- 
2.43.0


From 5b858a399abd3a5ee8e1a86c473082be15a4b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:17 +0000
Subject: [PATCH 09/43] fix: thread syncs keep the next checkpoint of a
 multi-rank run scheduled

---
 src/sst/core/sync/syncManager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/sync/syncManager.cc b/src/sst/core/sync/syncManager.cc
index e9a2ef7..546ca79 100644
--- a/src/sst/core/sync/syncManager.cc
+++ b/src/sst/core/sync/syncManager.cc
@@ -563,7 +563,8 @@ SyncManager::execute()
     }
     if ( profile_tools_ ) profile_tools_->syncManagerStart(next_sync_type_ == RANK);
 
-    SimTime_t next_checkpoint_time = MAX_SIMTIME_T;
+    // A thread sync between two rank syncs must not lose track of the next checkpoint
+    SimTime_t next_checkpoint_time = checkpoint_->getNextCheckpointSimTime();
 
     switch ( next_sync_type_ ) {
     case RANK:
-- 
2.43.0


From 21fa008d00cd1d6b332076baa441ca8aa88be725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 10/43] fix: keep the order of events on different self links
 over a restart

---
 src/sst/core/link.cc       | 16 ++++++++++++----
 src/sst/core/simulation.cc |  9 +++++++++
 src/sst/core/simulation.h  |  1 +
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/link.cc b/src/sst/core/link.cc
index a987547..48ccd8f 100644
--- a/src/sst/core/link.cc
+++ b/src/sst/core/link.cc
@@ -57,10 +57,13 @@ SST::Core::Serialization::serialize_impl<Link*>::serialize_events(
         for ( size_t i = 0; i < count; ++i ) {
             Event* ev = nullptr;
             SST_SER(ev);
-            // Insert into the specified ActivityQueue after updating
-            // delvery_info
+            // Insert into the specified ActivityQueue (or hold the
+            // event back if there is none) after updating delvery_info
             Link::updateEventDeliveryInfo(ev, delivery_info);
-            queue->insert(ev);
+            if ( queue )
+                queue->insert(ev);
+            else
+                Simulation::getSimulation()->self_event_restart_tracking.push_back(ev);
         }
     }
 }
@@ -409,7 +412,12 @@ SST::Core::Serialization::serialize_impl<Link*>::operator()(Link*& s, serializer
         // PollingLinkQueue, then nothing will actually get sent
         // since no events would have been serialized at this
         // point in Link serialization.
-        serialize_events(ser, s->pair_link->delivery_info, s->pair_link->send_queue);
+        //
+        // The self links of a component share one order tag, so their
+        // events are held back and inserted in their original order
+        // once all of them are known.
+        serialize_events(ser, s->pair_link->delivery_info,
+            type == SELF ? nullptr : s->pair_link->send_queue);
 
         // Need to finish initializing the links if this is now a
         // sync link.
diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index a7e095a..def9bb9 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2325,6 +2325,15 @@ Simulation::restart(ConfigGraph* graph)
         }
     }
 
+    // Insert the events of the self links. The self links of a component
+    // share one order tag, so the order of their events at one time is
+    // given by the order they were in at the checkpoint.
+    std::stable_sort(self_event_restart_tracking.begin(), self_event_restart_tracking.end(),
+        [](const Activity* lhs, const Activity* rhs) { return lhs->getQueueOrder() < rhs->getQueueOrder(); });
+    for ( Activity* act : self_event_restart_tracking )
+        timeVortex->insert(act);
+    self_event_restart_tracking.clear();
+
     // If we are a parallel job, need to call
     // finalizeLinkConfigurations() in order to finish setting up all
     // the sync data structures. This will also cause the SyncManager to
diff --git a/src/sst/core/simulation.h b/src/sst/core/simulation.h
index 53eaa92..4a75e90 100644
--- a/src/sst/core/simulation.h
+++ b/src/sst/core/simulation.h
@@ -701,6 +701,7 @@ public:
     /******** Checkpoint/restart tracking data structures ***********/
     std::map<LinkId_t, Link*>      link_restart_tracking;
     std::map<uintptr_t, uintptr_t> event_handler_restart_tracking;
+    std::vector<Activity*>         self_event_restart_tracking;
     uint32_t                       checkpoint_id_       = 0;
     std::string                    checkpoint_prefix_   = "";
     std::string                    globalOutputFileName = "";
-- 
2.43.0


From 806fe977cca527408b4a2c84c575a7fec3b32545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 11/43] fix: protect the current time unit of the thread-safe
 binned event queue

---
 .../impl/timevortex/timeVortexBinnedMap.cc    | 19 ++++++++++++-------
 .../impl/timevortex/timeVortexBinnedMap.h     | 14 +++++++++-----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
index 43bc1c3..5882f73 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.cc
@@ -83,19 +83,24 @@ TimeVortexBinnedMapBase<TS>::insert(Activity* activity)
         max_depth = current_depth;
     }
 
+    // Any access to the map and to the choice of the current time unit
+    // must be protected with a mutex.
+    if constexpr ( TS ) slock.lock();
+
     // Check to see if this event is supposed to be delivered at the
-    // current time.  This can only happen if it comes in on a
-    // SelfLink with no added latency.  This means that only one
-    // thread at a time can access the current time unit.  Thus, no
-    // mutex.
+    // current time.  It either comes in on a SelfLink with no added
+    // latency, or from a thread that did not yet reach the sync at the
+    // current time.  In both cases, the current time unit stays in
+    // place until the event is in.
     if ( UNLIKELY(sort_time == current_time_unit->getSortTime()) ) {
-        current_time_unit->insert(activity);
+        TimeUnit* unit = current_time_unit;
+        if constexpr ( TS ) slock.unlock();
+        unit->insert(activity);
         return;
     }
 
     // Look to see if we already have a TimeUnit for this delivery
-    // time.  Any access to the map must be protected with a mutex.
-    if constexpr ( TS ) slock.lock();
+    // time.
     auto element = map.find(sort_time);
     if ( element == map.end() ) {
         // Need to create a new entry in map for this delivery time,
diff --git a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
index b4b4157..ec9b040 100644
--- a/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
+++ b/src/sst/core/impl/timevortex/timeVortexBinnedMap.h
@@ -99,13 +99,17 @@ private:
             if ( TS ) tu_lock.unlock();
         }
 
-        // pop only happens by one thread
+        // pop only happens by one thread, but other threads may insert
         Activity* pop()
         {
-            if ( 0 == activities.size() ) return nullptr;
-            if ( !sorted ) sort();
-            auto ret = activities.back();
-            activities.pop_back();
+            Activity* ret = nullptr;
+            if ( TS ) tu_lock.lock();
+            if ( 0 != activities.size() ) {
+                if ( !sorted ) sort();
+                ret = activities.back();
+                activities.pop_back();
+            }
+            if ( TS ) tu_lock.unlock();
             return ret;
         }
 
-- 
2.43.0


From 75ffb2fd7ff1dd1bc4edc236a056f03b282534b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 12/43] fix: let threads delete their ends of direct
 interthread links one at a time

---
 src/sst/core/simulation.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index def9bb9..900152b 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -216,8 +216,14 @@ Simulation::~Simulation()
     // Clocks already got deleted by timeVortex, simply clear the clockMap
     clockMap.clear();
 
-    // Clear out Components
-    compInfoMap.clear();
+    // Clear out Components.  With direct interthread links, the two
+    // ends of a link refer to each other and belong to different
+    // threads, so only one thread at a time can do this.
+    {
+        static std::mutex link_mutex;
+        std::scoped_lock  lock(link_mutex);
+        compInfoMap.clear();
+    }
 
     // Clean up the profile tools
     for ( auto x : profile_tools )
-- 
2.43.0


From d68812351b7d2f507a58cadaf1a6a13885b0aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 13/43] fix: sort the set form of SparseVectorMap

---
 src/sst/core/sparseVectorMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/sparseVectorMap.h b/src/sst/core/sparseVectorMap.h
index 7c38a95..100257d 100644
--- a/src/sst/core/sparseVectorMap.h
+++ b/src/sst/core/sparseVectorMap.h
@@ -710,7 +710,7 @@ public:
      */
     void sort()
     {
-        std::sort(data.begin(), data.end, [](const keyT& lhs, const keyT& rhs) -> bool { return lhs < rhs; });
+        std::sort(data.begin(), data.end(), [](const keyT& lhs, const keyT& rhs) -> bool { return lhs < rhs; });
     }
 
     using iterator       = typename std::vector<keyT>::iterator;
-- 
2.43.0


From 0f94e449aaf2cbea9af073eb64e79e681e7e1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:04 +0000
Subject: [PATCH 14/43] fix: release the lock of the thread-safe priority queue
 when it is empty

---
 src/sst/core/impl/timevortex/timeVortexPQ.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/impl/timevortex/timeVortexPQ.cc b/src/sst/core/impl/timevortex/timeVortexPQ.cc
index 7d75427..21fd6ff 100644
--- a/src/sst/core/impl/timevortex/timeVortexPQ.cc
+++ b/src/sst/core/impl/timevortex/timeVortexPQ.cc
@@ -76,7 +76,10 @@ Activity*
 TimeVortexPQBase<TS>::pop()
 {
     if constexpr ( TS ) slock.lock();
-    if ( data.empty() ) return nullptr;
+    if ( data.empty() ) {
+        if constexpr ( TS ) slock.unlock();
+        return nullptr;
+    }
     Activity* ret_val = data.top();
     data.pop();
     current_depth--;
-- 
2.43.0


From 367f1eec08e602ec72de9cf89f17d2d7e2831d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 15/43] fix: make a bounded queue of one cell hold one item

---
 src/sst/core/threadsafe.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sst/core/threadsafe.h b/src/sst/core/threadsafe.h
index 2d1b54d..dcce580 100644
--- a/src/sst/core/threadsafe.h
+++ b/src/sst/core/threadsafe.h
@@ -168,6 +168,9 @@ template <typename T>
 class BoundedQueue
 {
 
+    // The sequence of a cell is 2 * p when it is free for the insertion
+    // at position p, and 2 * p + 1 when it holds the item of position
+    // p.  These never coincide, also not with a single cell.
     struct cell_t
     {
         std::atomic<size_t> sequence;
@@ -198,7 +201,7 @@ public:
         dsize = maxSize;
         data  = new cell_t[dsize];
         for ( size_t i = 0; i < maxSize; i++ )
-            data[i].sequence.store(i);
+            data[i].sequence.store(2 * i);
         rPtr.store(0);
         wPtr.store(0);
         // fprintf(stderr, "%p  %p:  %ld\n", &rPtr, &wPtr, ((intptr_t)&wPtr - (intptr_t)&rPtr));
@@ -222,7 +225,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)pos;
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos);
             if ( 0 == diff ) {
                 if ( wPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -235,7 +238,7 @@ public:
             }
         }
         cell->data = arg;
-        cell->sequence.store(pos + 1, std::memory_order_release);
+        cell->sequence.store(2 * pos + 1, std::memory_order_release);
         return true;
     }
 
@@ -247,7 +250,7 @@ public:
         for ( ;; ) {
             cell          = &data[pos % dsize];
             size_t   seq  = cell->sequence.load(std::memory_order_acquire);
-            intptr_t diff = (intptr_t)seq - (intptr_t)(pos + 1);
+            intptr_t diff = (intptr_t)seq - (intptr_t)(2 * pos + 1);
             if ( 0 == diff ) {
                 if ( rPtr.compare_exchange_weak(pos, pos + 1, std::memory_order_relaxed) ) break;
             }
@@ -259,7 +262,7 @@ public:
             }
         }
         res = cell->data;
-        cell->sequence.store(pos + dsize, std::memory_order_release);
+        cell->sequence.store(2 * (pos + dsize), std::memory_order_release);
         return true;
     }
 
-- 
2.43.0


From 523ed04f60061b38c1cb2b10a909742165dc5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 16/43] fix: size memory pool arenas for elements larger than
 the default arena

---
 src/sst/core/mempool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sst/core/mempool.cc b/src/sst/core/mempool.cc
index 7822255..9651903 100644
--- a/src/sst/core/mempool.cc
+++ b/src/sst/core/mempool.cc
@@ -132,6 +132,8 @@ public:
         else {
             allocSize = elemSize + 8;
         }
+        // An arena holds at least one element
+        if ( arenaSize < allocSize ) arenaSize = allocSize;
         max_overflow_size = arenaSize / allocSize;
 
         // Won't alloc until we need to
-- 
2.43.0


From 02178f9bc2242fb0c6d9e36bc2fa2e81528fcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 17/43] fix: unpack the owner of a shared pointer with the
 options of the pointer

---
 src/sst/core/serialization/impl/serialize_shared_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/serialization/impl/serialize_shared_ptr.h b/src/sst/core/serialization/impl/serialize_shared_ptr.h
index 7bd2774..11be37e 100644
--- a/src/sst/core/serialization/impl/serialize_shared_ptr.h
+++ b/src/sst/core/serialization/impl/serialize_shared_ptr.h
@@ -270,7 +270,7 @@ unpack_shared_ptr_owner(
                     owner = std::make_shared<OWNER_TYPE>();
 
                 // Deserialize the parent owner object
-                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()));
+                SST_SER(*static_cast<OWNER_TYPE*>(owner.get()), opt);
             }
         }
 
-- 
2.43.0


From de531cf88e5a96bf71b9a138e366c76343bd945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 18/43] fix: report objects behind pointers before unpacking
 their contents

---
 src/sst/core/serialization/impl/serialize_adapter.h    | 6 +++++-
 src/sst/core/serialization/impl/serialize_array.h      | 3 +++
 src/sst/core/serialization/impl/serialize_insertable.h | 6 +++++-
 src/sst/core/serialization/impl/serialize_tuple.h      | 6 +++++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/serialization/impl/serialize_adapter.h b/src/sst/core/serialization/impl/serialize_adapter.h
index 16c93cb..ad15401 100644
--- a/src/sst/core/serialization/impl/serialize_adapter.h
+++ b/src/sst/core/serialization/impl/serialize_adapter.h
@@ -19,6 +19,7 @@
 
 #include "sst/core/serialization/serializer.h"
 
+#include <cstdint>
 #include <queue>
 #include <stack>
 #include <type_traits>
@@ -68,7 +69,10 @@ class serialize_impl<T*, std::enable_if_t<is_adapter_v<T>>>
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
diff --git a/src/sst/core/serialization/impl/serialize_array.h b/src/sst/core/serialization/impl/serialize_array.h
index acf14fb..436d9a9 100644
--- a/src/sst/core/serialization/impl/serialize_array.h
+++ b/src/sst/core/serialization/impl/serialize_array.h
@@ -21,6 +21,8 @@
 
 #include <array>
 #include <cstddef>
+#include <cstdint>
+#include <iterator>
 #include <type_traits>
 
 namespace SST::Core::Serialization {
@@ -151,6 +153,7 @@ struct serialize_impl_fixed_array
                     ary = reinterpret_cast<OBJ_TYPE>(new std::remove_extent_t<T>[std::extent_v<T>]);
                 else
                     ary = reinterpret_cast<OBJ_TYPE>(new T);
+                ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(ary));
             }
             [[fallthrough]];
 
diff --git a/src/sst/core/serialization/impl/serialize_insertable.h b/src/sst/core/serialization/impl/serialize_insertable.h
index 1f12f50..93a1fa8 100644
--- a/src/sst/core/serialization/impl/serialize_insertable.h
+++ b/src/sst/core/serialization/impl/serialize_insertable.h
@@ -20,6 +20,7 @@
 #include "sst/core/serialization/serializer.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <deque>
 #include <forward_list>
 #include <iterator>
@@ -280,7 +281,10 @@ class serialize_impl<OBJ*, std::enable_if_t<is_insertable_v<OBJ>>>
 {
     void operator()(OBJ*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new OBJ;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new OBJ;
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
 
diff --git a/src/sst/core/serialization/impl/serialize_tuple.h b/src/sst/core/serialization/impl/serialize_tuple.h
index b1f361c..d81520c 100644
--- a/src/sst/core/serialization/impl/serialize_tuple.h
+++ b/src/sst/core/serialization/impl/serialize_tuple.h
@@ -19,6 +19,7 @@
 
 #include "sst/core/serialization/serializer.h"
 
+#include <cstdint>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -80,7 +81,10 @@ class serialize_impl<T*,
 {
     void operator()(T*& obj, serializer& ser, ser_opt_t options)
     {
-        if ( ser.mode() == serializer::UNPACK ) obj = new T;
+        if ( ser.mode() == serializer::UNPACK ) {
+            obj = new T;
+            ser.unpacker().report_new_pointer(reinterpret_cast<uintptr_t>(obj));
+        }
         SST_SER(*obj, options);
     }
     SST_FRIEND_SERIALIZE();
-- 
2.43.0


From 04399d82320abd41af05b8125cafcbd931b7fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 19/43] fix: serialize the elements of pointed-to arrays
 through std::data

---
 src/sst/core/serialization/impl/serialize_array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sst/core/serialization/impl/serialize_array.h b/src/sst/core/serialization/impl/serialize_array.h
index 436d9a9..22b3bbe 100644
--- a/src/sst/core/serialization/impl/serialize_array.h
+++ b/src/sst/core/serialization/impl/serialize_array.h
@@ -142,8 +142,8 @@ struct serialize_impl_fixed_array
         const auto& aPtr     = get_ptr(ary); // reference to ary if it's a pointer; &ary otherwise
         switch ( ser.mode() ) {
         case serializer::MAP:
-            serialize_array_map(
-                ser, &(*aPtr)[0], elem_opt, SIZE, new ObjectMapContainer<T>(aPtr), serialize_array_map_element<ELEM_T>);
+            serialize_array_map(ser, std::data(*aPtr), elem_opt, SIZE, new ObjectMapContainer<T>(aPtr),
+                serialize_array_map_element<ELEM_T>);
             break;
 
         case serializer::UNPACK:
@@ -161,9 +161,9 @@ struct serialize_impl_fixed_array
             // TODO: How to handle array-of-array
             // is_trivially_serializable_excluded_v<ELEM_T> can be added to exclude arrays-of-arrays from the fast path
             if constexpr ( is_trivially_serializable_v<ELEM_T> )
-                ser.raw(&(*aPtr)[0], sizeof(ELEM_T) * SIZE);
+                ser.raw(std::data(*aPtr), sizeof(ELEM_T) * SIZE);
             else
-                serialize_array(ser, &(*aPtr)[0], elem_opt, SIZE, serialize_array_element<ELEM_T>);
+                serialize_array(ser, std::data(*aPtr), elem_opt, SIZE, serialize_array_element<ELEM_T>);
             break;
         }
     }
-- 
2.43.0


From 47797ba1cba5ff05f1239c87f8fcb9a951c9d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 20/43] fix: keep the first value found for a key in
 get_scoped_params

---
 src/sst/core/params.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index 1a617ff..e986c40 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -219,7 +219,8 @@ Params::get_scoped_params(const std::string& scope) const
         for ( auto value : *map ) {
             std::string key = keyMapReverse[value.first].substr(0, prefix.length());
             if ( key == prefix ) {
-                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second);
+                // Maps are in order of precedence, so the first value found for a key is kept
+                ret.insert(keyMapReverse[value.first].substr(prefix.length()), value.second, false);
             }
         }
     }
-- 
2.43.0


From 48c542c7e70a623ab0daf06f5206aac8765ebcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 21/43] fix: do not treat the name of a shared parameter set as
 a key

---
 src/sst/core/params.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/params.cc b/src/sst/core/params.cc
index e986c40..c9b9269 100644
--- a/src/sst/core/params.cc
+++ b/src/sst/core/params.cc
@@ -201,7 +201,8 @@ Params::getKeys() const
     std::set<std::string> ret;
     for ( auto map : data ) {
         for ( auto value : *map ) {
-            ret.insert(keyMapReverse[value.first]);
+            // ID 0 holds the name of a shared set and is not a key
+            if ( value.first != 0 ) ret.insert(keyMapReverse[value.first]);
         }
     }
     return ret;
@@ -336,6 +337,8 @@ Params::serialize_order(SST::Core::Serialization::serializer& ser)
             // exists will be ignored.
             for ( auto& map : data ) {
                 for ( auto& kvp : *map ) {
+                    // ID 0 holds the name of a shared set and is not a key
+                    if ( kvp.first == 0 ) continue;
                     tmp_map.insert(std::make_pair(getParamName(kvp.first), kvp.second));
                 }
             }
-- 
2.43.0


From 4c30c259516e22378ce4c9f4edb4c232859e9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 22/43] fix: refuse numbers out of range of small integer
 parameters

---
 src/sst/core/from_string.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/from_string.h b/src/sst/core/from_string.h
index 72d79ba..ee88d30 100644
--- a/src/sst/core/from_string.h
+++ b/src/sst/core/from_string.h
@@ -42,7 +42,10 @@ from_string(const std::string& input)
             return std::stoll(input, nullptr, 0);
         }
         else { // Smaller than 32-bit
-            return static_cast<T>(std::stol(input, nullptr, 0));
+            long value = std::stol(input, nullptr, 0);
+            if ( value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max() )
+                throw std::out_of_range("from_string: value out of range");
+            return static_cast<T>(value);
         }
     }
     else {
@@ -70,7 +73,11 @@ from_string(const std::string& input)
             return std::stoull(input, nullptr, 0);
         }
         else { // Smaller than 32-bit
-            return static_cast<T>(std::stoul(input, nullptr, 0));
+            // As with the larger types, negative numbers wrap around
+            unsigned long value = std::stoul(input, nullptr, 0);
+            if ( value > std::numeric_limits<T>::max() && input.find('-') == std::string::npos )
+                throw std::out_of_range("from_string: value out of range");
+            return static_cast<T>(value);
         }
     }
 }
-- 
2.43.0


From f4778210155275a4e81da4b8d595c384e7339483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 23/43] fix: take the sign into account in decimal_fixedpoint
 comparison and conversion

---
 src/sst/core/decimal_fixedpoint.h | 91 ++++++++++++++-----------------
 1 file changed, 42 insertions(+), 49 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 4129258..10d6d5f 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -80,6 +80,38 @@ private:
      */
     bool negative;
 
+    /**
+       Compare the magnitude of this number to the magnitude of
+       another.
+
+       @param v Number to compare to
+       @return -1, 0 or 1 if the magnitude is less than, equal to or
+       greater than that of v
+     */
+    int compareMagnitude(const decimal_fixedpoint& v) const
+    {
+        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
+            if ( data[i] < v.data[i] ) return -1;
+            if ( data[i] > v.data[i] ) return 1;
+        }
+        return 0;
+    }
+
+    /**
+       Compare this number to another.
+
+       @param v Number to compare to
+       @return -1, 0 or 1 if this number is less than, equal to or
+       greater than v
+     */
+    int compare(const decimal_fixedpoint& v) const
+    {
+        int mag = compareMagnitude(v);
+        if ( negative == v.negative ) return negative ? -mag : mag;
+        if ( isZero() && v.isZero() ) return 0;
+        return negative ? -1 : 1;
+    }
+
     /**
        initialize a decimal_fixedpoint using a string initializer
 
@@ -175,7 +207,8 @@ private:
      */
     void from_double(double init)
     {
-        negative = false;
+        negative = (init < 0);
+        if ( negative ) init = -init;
 
         for ( int i = 0; i < whole_words + fraction_words; ++i ) {
             data[i] = 0;
@@ -345,7 +378,7 @@ public:
             factor *= storage_radix;
         }
 
-        return ret;
+        return negative ? -ret : ret;
     }
 
     /**
@@ -682,7 +715,7 @@ public:
         }
 
         // Signs don't match, so we need to sort
-        if ( operator>=(v) ) {
+        if ( compareMagnitude(v) >= 0 ) {
             // Calculate the result for each digit.  Need to negate the
             // second operand and pass a 1 in as carry-in (carry-over).
             uint64_t carry_over = 1;
@@ -827,40 +860,21 @@ public:
 
        @param v Number to check equality against
      */
-    bool operator==(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator==(const decimal_fixedpoint& v) const { return compare(v) == 0; }
 
     /**
        Checks to see if two numbers are not equal
 
        @param v Number to check equality against
      */
-    bool operator!=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] != v.data[i] ) return true;
-        }
-        return false;
-    }
+    bool operator!=(const decimal_fixedpoint& v) const { return compare(v) != 0; }
 
     /**
        Checks to see if this number is greater than another number
 
        @param v Number to compare to
      */
-    bool operator>(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator>(const decimal_fixedpoint& v) const { return compare(v) > 0; }
 
     /**
        Checks to see if this number is greater than or equal to
@@ -868,28 +882,14 @@ public:
 
        @param v Number to compare to
      */
-    bool operator>=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] > v.data[i] ) return true;
-            if ( data[i] < v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator>=(const decimal_fixedpoint& v) const { return compare(v) >= 0; }
 
     /**
        Checks to see if this number is less than another number
 
        @param v Number to compare to
      */
-    bool operator<(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return false;
-    }
+    bool operator<(const decimal_fixedpoint& v) const { return compare(v) < 0; }
 
     /**
        Checks to see if this number is less than or equal to another
@@ -897,14 +897,7 @@ public:
 
        @param v Number to compare to
      */
-    bool operator<=(const decimal_fixedpoint& v) const
-    {
-        for ( int i = whole_words + fraction_words - 1; i >= 0; --i ) {
-            if ( data[i] < v.data[i] ) return true;
-            if ( data[i] > v.data[i] ) return false;
-        }
-        return true;
-    }
+    bool operator<=(const decimal_fixedpoint& v) const { return compare(v) <= 0; }
 };
 
 template <int whole_words, int fraction_words>
-- 
2.43.0


From 62b978475d684341998ce772100ec3914f004a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 24/43] fix: keep decimal_fixedpoint parsing within its words

---
 src/sst/core/decimal_fixedpoint.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index 10d6d5f..cec2ece 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -22,6 +22,7 @@
 #include <limits>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -156,15 +157,22 @@ private:
         // Convert digits to numbers
 
         // Compute the first mult
-        int      start_pos_word = start_of_digits % digits_per_word;
+        int      start_pos_word = start_of_digits > 0 ? start_of_digits % digits_per_word : 0;
         uint32_t mult           = 1;
         for ( int i = 0; i < start_pos_word; i++ ) {
             mult *= 10;
         }
 
         for ( int i = init.length() - 1; i >= 0; --i ) {
-            int digit = start_of_digits + (init.length() - 1 - i);
-            int word  = (digit / digits_per_word);
+            int digit = start_of_digits + static_cast<int>(init.length() - 1 - i);
+            // Digits beyond the least significant one are dropped
+            if ( digit < 0 ) continue;
+            int word = (digit / digits_per_word);
+            if ( word >= whole_words + fraction_words ) {
+                // Number is too big to represent unless there are only zeros left
+                if ( init[i] == '0' ) continue;
+                throw std::overflow_error("decimal_fixedpoint: number too large: " + init_str);
+            }
 
             data[word] += (SST::Core::from_string<uint32_t>(init.substr(i, 1)) * mult);
             mult *= 10;
-- 
2.43.0


From b9b0f17f1bd80fe32f6d38fdcfaaeedd9d183e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 25/43] fix: read the whole words in
 decimal_fixedpoint::toUnsignedLong

---
 src/sst/core/decimal_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/decimal_fixedpoint.h b/src/sst/core/decimal_fixedpoint.h
index cec2ece..83525ea 100644
--- a/src/sst/core/decimal_fixedpoint.h
+++ b/src/sst/core/decimal_fixedpoint.h
@@ -435,7 +435,7 @@ public:
         uint64_t ret    = 0;
         uint64_t factor = 1;
         for ( int i = 0; i < whole_words; ++i ) {
-            ret += (static_cast<int64_t>(data[i]) * factor);
+            ret += (static_cast<uint64_t>(data[fraction_words + i]) * factor);
             factor *= storage_radix;
         }
         return ret;
-- 
2.43.0


From 09db9579993f5decc811c75be5d9e3a9905ffad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 26/43] fix: UnitAlgebra values with different units are not
 equal

---
 src/sst/core/unitAlgebra.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index eb73656..b96b4a0 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -482,7 +482,7 @@ UnitAlgebra::operator==(const UnitAlgebra& v) const
 bool
 UnitAlgebra::operator!=(const UnitAlgebra& v) const
 {
-    if ( unit != v.unit ) return false;
+    if ( unit != v.unit ) return true;
     return value != v.value;
 }
 
-- 
2.43.0


From 8a71c4d9484b737b845238a36ab3745b969f701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 27/43] fix: divide by SI prefixes in the denominator

---
 src/sst/core/unitAlgebra.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index b96b4a0..bf810db 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -128,7 +128,19 @@ Units::addUnit(const std::string& units, sst_big_num& multiplier, bool invert)
 
     if ( si_length > 0 ) {
         std::string si_unit = units.substr(0, si_length);
-        multiplier *= si_unit_map()[si_unit];
+        if ( !invert )
+            multiplier *= si_unit_map()[si_unit];
+        else {
+            // The reciprocals of the decimal prefixes are exact
+            static const std::map<std::string, std::string> reciprocal = { { "a", "E" }, { "f", "P" }, { "p", "T" },
+                { "n", "G" }, { "u", "M" }, { "m", "k" }, { "k", "m" }, { "K", "m" }, { "M", "u" }, { "G", "n" },
+                { "T", "p" }, { "P", "f" }, { "E", "a" } };
+            auto it = reciprocal.find(si_unit);
+            if ( it != reciprocal.end() )
+                multiplier *= si_unit_map()[it->second];
+            else
+                multiplier /= si_unit_map()[si_unit];
+        }
     }
 
     // Check to see if the unit is valid and get its ID
-- 
2.43.0


From fc20af8a46b24470e71ef36f01eb21e1bb35ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 28/43] fix: choose the best SI prefix by magnitude

---
 src/sst/core/unitAlgebra.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/unitAlgebra.cc b/src/sst/core/unitAlgebra.cc
index bf810db..833a4da 100644
--- a/src/sst/core/unitAlgebra.cc
+++ b/src/sst/core/unitAlgebra.cc
@@ -394,7 +394,9 @@ UnitAlgebra::toStringBestSI(int32_t precision) const
         // the most natural SI unit
         if ( it.first.length() == 2 ) continue; // Don't do power of 2 units
         temp = value / it.second;
-        if ( temp >= 1 && temp < 1000 ) {
+        sst_big_num magnitude = temp;
+        if ( magnitude < 0 ) magnitude.negate();
+        if ( magnitude >= 1 && magnitude < 1000 ) {
             found = true;
             si    = it.first;
             break;
-- 
2.43.0


From cf9d05cb20fa069403d2fe25dbfd64322d3d897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 29/43] fix: convert times to timebase units exactly

---
 src/sst/core/timeLord.cc | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/sst/core/timeLord.cc b/src/sst/core/timeLord.cc
index 3a8d49c..c2f1d2c 100644
--- a/src/sst/core/timeLord.cc
+++ b/src/sst/core/timeLord.cc
@@ -139,16 +139,22 @@ TimeLord::getFactorForTime(const std::string& time)
 SimTime_t
 TimeLord::getFactorForTime(const UnitAlgebra& time)
 {
-    SimTime_t   sim_cycles;
     UnitAlgebra period = time;
-    UnitAlgebra ua_factor;
+    // The number of timebases in the period is dividend / divisor.
+    // Quotients are only approximate, so they cannot be used to check
+    // the range or to round.
+    sst_big_num dividend;
+    sst_big_num divisor;
     // Need to differentiate between Hz and s.
     if ( period.hasUnits("s") ) {
-        ua_factor = period / timebase_;
+        dividend = period.getValue();
+        divisor  = timebase_.getValue();
     }
     else if ( period.hasUnits("Hz") ) {
-        UnitAlgebra temp = timebase_;
-        ua_factor        = temp.invert() / period;
+        // Scaled up to keep all digits of the product
+        sst_big_num scale("1e12");
+        dividend = period.isValueZero() ? sst_big_num(0u) : scale;
+        divisor  = period.getValue() * (timebase_.getValue() * scale);
     }
     else {
         throw std::invalid_argument("Error:  TimeConverter creation requires "
@@ -156,20 +162,32 @@ TimeLord::getFactorForTime(const UnitAlgebra& time)
                                     time.toStringBestSI() + " was passed to call");
     }
     // Check to see if number is too big or too small
-    if ( ua_factor.getValue() > static_cast<uint64_t>(MAX_SIMTIME_T) ) {
+    // (0 is special cased to not fail)
+    if ( dividend == 0 ) return 0;
+    if ( divisor < 1000 && dividend > divisor * sst_big_num(static_cast<uint64_t>(MAX_SIMTIME_T)) ) {
         throw std::overflow_error("Error:  Attempting to get TimeConverter for a time (" + time.toStringBestSI() +
                                   ") "
                                   "which is too large for the timebase (" +
                                   timebase_.toStringBestSI() + ")");
     }
-    // Check to see if period is too short (0 is special cased to not fail)
-    if ( ua_factor.getValue() < 1 && ua_factor.getValue() != 0 ) {
+    // Check to see if period is too short
+    if ( dividend < divisor ) {
         throw std::underflow_error("Error:  Attempting to get TimeConverter for a time (" + time.toStringBestSI() +
                                    ") "
                                    "which has too small of a period to be represented by the timebase (" +
                                    timebase_.toStringBestSI() + ")");
     }
-    sim_cycles = ua_factor.getRoundedValue();
+    // Round to nearest, halfway cases to even
+    SimTime_t   sim_cycles = (dividend / divisor).convert_to<uint64_t>();
+    sst_big_num rest       = (dividend - divisor * sst_big_num(sim_cycles)) * sst_big_num(2);
+    bool        odd        = sim_cycles % 2 == 1;
+    if ( rest > divisor || (rest == divisor && odd) ) {
+        ++sim_cycles;
+    }
+    else {
+        rest.negate();
+        if ( rest > divisor || (rest == divisor && odd) ) --sim_cycles;
+    }
     return sim_cycles;
 }
 
-- 
2.43.0


From 2193d742b88f5090a048b3155d23b22b24f2d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 30/43] fix: adding a value zero times leaves a statistic
 unchanged

---
 src/sst/core/statapi/stataccumulator.h | 1 +
 src/sst/core/statapi/stathistogram.h   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index 1293a68..ab6ae1f 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -96,6 +96,7 @@ protected:
 
     void addData_impl_Ntimes(uint64_t N, NumberBase value) override
     {
+        if ( N == 0 ) return;
         m_sum += N * value;
         m_sum_sq += N * value * value;
         m_min = (value < m_min) ? value : m_min;
diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index c893498..2bb3fa5 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -118,6 +118,9 @@ protected:
     */
     void addData_impl_Ntimes(uint64_t N, BinDataType value) override
     {
+        // Nothing is added, so no bin becomes active
+        if ( N == 0 ) return;
+
         // Check to see if the value is above or below the min/max values
         if ( value < getBinsMinValue() ) {
             m_OOBMinCount += N;
-- 
2.43.0


From 48724722aa9d68f9aa4a0103d93dbec6ac5a9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 31/43] fix: start the accumulator maximum at the lowest value

---
 src/sst/core/statapi/stataccumulator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/statapi/stataccumulator.h b/src/sst/core/statapi/stataccumulator.h
index ab6ae1f..6840140 100644
--- a/src/sst/core/statapi/stataccumulator.h
+++ b/src/sst/core/statapi/stataccumulator.h
@@ -59,7 +59,7 @@ public:
         m_sum    = static_cast<NumberBase>(0);
         m_sum_sq = static_cast<NumberBase>(0);
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
     }
 
     ~AccumulatorStatistic() {}
@@ -165,7 +165,7 @@ public:
         m_sum    = 0;
         m_sum_sq = 0;
         m_min    = std::numeric_limits<NumberBase>::max();
-        m_max    = std::numeric_limits<NumberBase>::min();
+        m_max    = std::numeric_limits<NumberBase>::lowest();
         this->setCollectionCount(0);
     }
 
-- 
2.43.0


From 70b4d5e82106761bc514c3f423c1727d24142b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 32/43] fix: count histogram items and bins from the minimum
 value

---
 src/sst/core/statapi/stathistogram.h | 44 ++++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/sst/core/statapi/stathistogram.h b/src/sst/core/statapi/stathistogram.h
index 2bb3fa5..32e4798 100644
--- a/src/sst/core/statapi/stathistogram.h
+++ b/src/sst/core/statapi/stathistogram.h
@@ -17,6 +17,10 @@
 #include "sst/core/statapi/statoutput.h"
 #include "sst/core/warnmacros.h"
 
+#include <cmath>
+#include <cstdint>
+#include <type_traits>
+
 namespace SST::Statistics {
 
 // NOTE: When calling base class members in classes derived from
@@ -137,18 +141,18 @@ protected:
         m_totalSummedSqr += N * (value * value);
 
         // Increment the Binned count (note this <= to the Statistics added Item Count)
-        m_itemsBinnedCount++;
-
-        // Figure out what the starting bin is and find it in the map
-        // To support signed and unsigned values along with floating point types,
-        // the calculation to find the bin_start value must be done in floating point
-        // then converted to BinDataType
-        double      calc1     = (double)value / (double)m_binWidth;
-        double      calc2     = floor(calc1); // Find the floor of the value
-        double      calc3     = m_binWidth * calc2;
-        BinDataType bin_start = (BinDataType)calc3;
-        //      printf("DEBUG: value = %d, junk1 = %f, calc2 = %f, calc3 = %f : bin_start = %d, item count = %ld, \n",
-        //      value, calc1, calc2, calc3, bin_start, getStatCollectionCount());
+        m_itemsBinnedCount += N;
+
+        // Figure out what the starting bin is and find it in the map. The first bin starts at the minimum value.
+        // The value is not below the minimum value, so the distance fits into the unsigned integer type.
+        uint64_t bin;
+        if constexpr ( std::is_floating_point_v<BinDataType> ) {
+            bin = static_cast<uint64_t>(std::floor((value - m_minValue) / m_binWidth));
+        }
+        else {
+            bin = (static_cast<uint64_t>(value) - static_cast<uint64_t>(m_minValue)) / m_binWidth;
+        }
+        BinDataType bin_start = getBinStart(bin);
 
         HistoMapItr_t bin_itr = m_binsMap.find(bin_start);
 
@@ -166,6 +170,17 @@ protected:
     void addData_impl(BinDataType value) override { addData_impl_Ntimes(1, value); }
 
 private:
+    /** Get the start value of a bin, counted from 0 */
+    BinDataType getBinStart(uint64_t bin)
+    {
+        if constexpr ( std::is_floating_point_v<BinDataType> ) {
+            return m_minValue + static_cast<BinDataType>(bin) * m_binWidth;
+        }
+        else {
+            return static_cast<BinDataType>(static_cast<uint64_t>(m_minValue) + bin * m_binWidth);
+        }
+    }
+
     /** Count how many bins are active in this histogram */
     NumBinsType getActiveBinCount() { return m_binsMap.size(); }
 
@@ -309,11 +324,8 @@ private:
 
         // Do we also need to dump the bin counts on output
         if ( true == m_dumpBinsOnOutput ) {
-            BinDataType currentBinValue = getBinsMinValue();
             for ( uint32_t y = 0; y < getNumBins(); y++ ) {
-                statOutput->outputField(m_Fields[x++], getBinCountByBinStart(currentBinValue));
-                // Increment the currentBinValue to get the next bin
-                currentBinValue += getBinWidth();
+                statOutput->outputField(m_Fields[x++], getBinCountByBinStart(getBinStart(y)));
             }
         }
     }
-- 
2.43.0


From 407fb5c225910756bdbf83052cf2197e9a3eb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 33/43] fix: honour setFlagOutputAtEndOfSim

---
 src/sst/core/statapi/statengine.cc | 3 +++
 src/sst/core/statapi/statoutput.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 6858f55..9029308 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -488,6 +488,9 @@ StatisticProcessingEngine::performStatisticOutputImpl(StatisticBase* stat, bool
 
     // Has the simulation started?
     if ( true == simulation_started_ ) {
+        // Was output at the end of simulation turned off?
+        if ( end_of_sim_flag && !stat->getFlagOutputAtEndOfSim() ) return;
+
         stat_output->output(stat, end_of_sim_flag);
 
         if ( false == end_of_sim_flag ) {
diff --git a/src/sst/core/statapi/statoutput.cc b/src/sst/core/statapi/statoutput.cc
index 1201c0c..3b4c919 100644
--- a/src/sst/core/statapi/statoutput.cc
+++ b/src/sst/core/statapi/statoutput.cc
@@ -48,6 +48,9 @@ StatisticOutput::outputGroup(StatisticGroup* group, bool endOfSimFlag)
     this->lock();
     startOutputGroup(group);
     for ( auto& stat : group->stats ) {
+        // Was output at the end of simulation turned off?
+        if ( endOfSimFlag && !stat->getFlagOutputAtEndOfSim() ) continue;
+
         output(stat, endOfSimFlag);
 
         // Check to see if the Statistic Count needs to be reset
-- 
2.43.0


From f8b9c1e79f092be84721a391d6ac0ed500772599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 34/43] fix: ignore output requests for null statistics

---
 src/sst/core/statapi/statengine.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index 9029308..eb4c76e 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -475,6 +475,9 @@ StatisticProcessingEngine::getStatisticStopTimeFactor(StatisticBase* stat)
 void
 StatisticProcessingEngine::performStatisticOutput(StatisticBase* stat, bool end_of_sim_flag /*=false*/)
 {
+    // Null statistics belong to no group and have nothing to output
+    if ( stat->isNullStatistic() ) return;
+
     if ( stat->getGroup()->is_default )
         performStatisticOutputImpl(stat, end_of_sim_flag);
     else
-- 
2.43.0


From b3d655b4962bd0f83e424097777f1abec66544c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 35/43] fix: restore start and stop times and outputs of
 statistics at a restart

---
 src/sst/core/statapi/statengine.cc | 18 +++++++++++-------
 src/sst/core/statapi/statengine.h  |  4 ++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/sst/core/statapi/statengine.cc b/src/sst/core/statapi/statengine.cc
index eb4c76e..c27a923 100644
--- a/src/sst/core/statapi/statengine.cc
+++ b/src/sst/core/statapi/statengine.cc
@@ -89,7 +89,7 @@ StatisticProcessingEngine::restart()
 {
     simulation_started_ = false;
     if ( stat_default_groups_.empty() ) stat_default_groups_.insert(std::make_pair(0, StatisticGroup()));
-    for ( auto group : stat_default_groups_ ) {
+    for ( auto& group : stat_default_groups_ ) {
         group.second.output = stat_outputs_[0];
     }
     for ( std::vector<StatisticGroup>::iterator it = stat_groups_.begin(); it != stat_groups_.end(); it++ ) {
@@ -239,8 +239,12 @@ StatisticProcessingEngine::reregisterStatisticWithEngine(
         group.addStatistic(stat);
     }
 
-    if ( start_at_time != 0 ) setStatisticStartTime(stat, start_at_time);
-    if ( stop_at_time != 0 ) setStatisticStopTime(stat, stop_at_time);
+    // A start or stop time equal to the checkpoint time has not been acted on yet.
+    // The enable state was restored with the statistic and must not change here.
+    const bool enabled = stat->isEnabled();
+    if ( start_at_time != 0 ) setStatisticStartTime(stat, start_at_time, true);
+    if ( stop_at_time != 0 ) setStatisticStopTime(stat, stop_at_time, true);
+    if ( enabled ) stat->enable();
 
     return success;
 }
@@ -391,13 +395,13 @@ StatisticProcessingEngine::addEventBasedStatistic(const UnitAlgebra& count, Stat
 }
 
 void
-StatisticProcessingEngine::setStatisticStartTime(StatisticBase* stat, SimTime_t factor)
+StatisticProcessingEngine::setStatisticStartTime(StatisticBase* stat, SimTime_t factor, bool restart)
 {
     Simulation*  sim = Simulation::getSimulation();
     StatArray_t* stat_array;
 
     // Check to see if the time is zero or has already passed, if it is we skip this work
-    if ( factor > sim->getCurrentSimCycle() ) {
+    if ( factor > sim->getCurrentSimCycle() || (restart && factor == sim->getCurrentSimCycle()) ) {
         // See if the map contains an entry for this factor
         if ( start_time_map_.find(factor) == start_time_map_.end() ) {
             sim->one_shot_manager_.registerAbsoluteHandler<StatisticProcessingEngine,
@@ -433,13 +437,13 @@ StatisticProcessingEngine::getStatisticStartTimeFactor(StatisticBase* stat)
 }
 
 void
-StatisticProcessingEngine::setStatisticStopTime(StatisticBase* stat, SimTime_t factor)
+StatisticProcessingEngine::setStatisticStopTime(StatisticBase* stat, SimTime_t factor, bool restart)
 {
     Simulation*  sim = Simulation::getSimulation();
     StatArray_t* stat_array;
 
     // Check to see if the time is zero or has already passed, if it is we skip this work
-    if ( factor > sim->getCurrentSimCycle() ) {
+    if ( factor > sim->getCurrentSimCycle() || (restart && factor == sim->getCurrentSimCycle()) ) {
         // See if the map contains an entry for this factor
         if ( stop_time_map_.find(factor) == stop_time_map_.end() ) {
             // This tcFactor is not found in the map, so create a new OneShot handler.
diff --git a/src/sst/core/statapi/statengine.h b/src/sst/core/statapi/statengine.h
index d32c524..e62afba 100644
--- a/src/sst/core/statapi/statengine.h
+++ b/src/sst/core/statapi/statengine.h
@@ -174,8 +174,8 @@ private:
     StatisticGroup&  getGroupForStatistic(const StatisticBase* stat) const;
     bool             addPeriodicBasedStatistic(SimTime_t factor, StatisticBase* stat);
     void             addEventBasedStatistic(const UnitAlgebra& count, StatisticBase* stat);
-    void             setStatisticStartTime(StatisticBase* stat, SimTime_t factor);
-    void             setStatisticStopTime(StatisticBase* stat, SimTime_t factor);
+    void             setStatisticStartTime(StatisticBase* stat, SimTime_t factor, bool restart = false);
+    void             setStatisticStopTime(StatisticBase* stat, SimTime_t factor, bool restart = false);
 
     void finalizeInitialization(); /* Called when performWireUp() finished */
     void startOfSimulation();
-- 
2.43.0


From 3ab8c4dd40efd1ad958d955bf13452827c312168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:27 +0000
Subject: [PATCH 36/43] fix: start statistic outputs after all threads have
 registered with them at a restart

---
 src/sst/core/simulation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sst/core/simulation.cc b/src/sst/core/simulation.cc
index 900152b..5a54ecc 100644
--- a/src/sst/core/simulation.cc
+++ b/src/sst/core/simulation.cc
@@ -2356,6 +2356,9 @@ Simulation::restart(ConfigGraph* graph)
 
     // Prepare stat engine for restart now that stats are registered
     stat_engine.finalizeInitialization();
+
+    // The outputs are shared by all threads: start them once every thread has registered its statistics
+    setupBarrier.wait();
     if ( my_rank.thread == 0 ) {
         StatisticProcessingEngine::stat_outputs_simulation_start();
     }
-- 
2.43.0


From 9813f75e84ae8913d118061d743415074ac7f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 37/43] fix: discard events left in sync queues before the
 complete phases

---
 src/sst/core/sync/rankSyncParallelSkip.cc |  8 +++++++-
 src/sst/core/sync/rankSyncSerialSkip.cc   |  8 +++++++-
 src/sst/core/sync/syncQueue.cc            | 10 ++++++++++
 src/sst/core/sync/syncQueue.h             | 11 +++++++++++
 src/sst/core/sync/threadSyncSimpleSkip.cc |  6 ++++++
 5 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/sync/rankSyncParallelSkip.cc b/src/sst/core/sync/rankSyncParallelSkip.cc
index 94c67e4..d574029 100644
--- a/src/sst/core/sync/rankSyncParallelSkip.cc
+++ b/src/sst/core/sync/rankSyncParallelSkip.cc
@@ -141,7 +141,13 @@ RankSyncParallelSkip::finalizeLinkConfigurations()
 
 void
 RankSyncParallelSkip::prepareForComplete()
-{}
+{
+    // Events that were sent during the run, but not exchanged before it ended, will never be delivered.  Get rid of them
+    // so they aren't mistaken for untimed data.
+    for ( auto& x : comm_send_map ) {
+        x.second.squeue->discard();
+    }
+}
 
 void
 RankSyncParallelSkip::setSignals(int end, int usr, int alrm)
diff --git a/src/sst/core/sync/rankSyncSerialSkip.cc b/src/sst/core/sync/rankSyncSerialSkip.cc
index b371892..2f9940e 100644
--- a/src/sst/core/sync/rankSyncSerialSkip.cc
+++ b/src/sst/core/sync/rankSyncSerialSkip.cc
@@ -104,7 +104,13 @@ RankSyncSerialSkip::finalizeLinkConfigurations()
 
 void
 RankSyncSerialSkip::prepareForComplete()
-{}
+{
+    // Events that were sent during the run, but not exchanged before it ended, will never be delivered.  Get rid of them
+    // so they aren't mistaken for untimed data.
+    for ( auto& x : comm_map ) {
+        x.second.squeue->discard();
+    }
+}
 
 void
 RankSyncSerialSkip::setSignals(int end, int usr, int alrm)
diff --git a/src/sst/core/sync/syncQueue.cc b/src/sst/core/sync/syncQueue.cc
index 8546db3..8dfbf91 100644
--- a/src/sst/core/sync/syncQueue.cc
+++ b/src/sst/core/sync/syncQueue.cc
@@ -78,6 +78,16 @@ RankSyncQueue::clear()
     activities.clear();
 }
 
+void
+RankSyncQueue::discard()
+{
+    std::scoped_lock lock(slock);
+    for ( Activity* activity : activities ) {
+        delete activity;
+    }
+    activities.clear();
+}
+
 char*
 RankSyncQueue::getData()
 {
diff --git a/src/sst/core/sync/syncQueue.h b/src/sst/core/sync/syncQueue.h
index c0afb2d..98b8db8 100644
--- a/src/sst/core/sync/syncQueue.h
+++ b/src/sst/core/sync/syncQueue.h
@@ -80,6 +80,8 @@ public:
     // Not part of the ActivityQueue interface
     /** Clear elements from the queue */
     void  clear();
+    /** Delete all elements and clear the queue */
+    void  discard();
     /** Accessor method to the internal queue */
     char* getData();
 
@@ -129,6 +131,15 @@ public:
 
     void clear() { activities.clear(); }
 
+    /** Delete all elements and clear the queue */
+    void discard()
+    {
+        for ( Activity* activity : activities ) {
+            delete activity;
+        }
+        activities.clear();
+    }
+
     std::vector<Activity*>& getVector() { return activities; }
 
 private:
diff --git a/src/sst/core/sync/threadSyncSimpleSkip.cc b/src/sst/core/sync/threadSyncSimpleSkip.cc
index 85127ef..d3c7b54 100644
--- a/src/sst/core/sync/threadSyncSimpleSkip.cc
+++ b/src/sst/core/sync/threadSyncSimpleSkip.cc
@@ -174,6 +174,12 @@ ThreadSyncSimpleSkip::prepareForComplete()
     for ( auto i = link_map.begin(); i != link_map.end(); ++i ) {
         prepareForCompleteInt(i->second);
     }
+
+    // Events that were sent during the run, but not exchanged before it ended, will never be delivered.  Get rid of them
+    // so they aren't mistaken for untimed data.
+    for ( auto* queue : queues ) {
+        queue->discard();
+    }
 }
 
 uint64_t
-- 
2.43.0


From 8411bed9af3202ba7a8bc459ed99b1a346466f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 38/43] fix: SharedMap::upper_bound finds the upper bound

---
 src/sst/core/shared/sharedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index c313faa..8a0d96c 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -152,7 +152,7 @@ public:
 
        @param key key to compare to
     */
-    inline const_iterator upper_bound(const keyT& key) const { return data->map.lower_bound(key); }
+    inline const_iterator upper_bound(const keyT& key) const { return data->map.upper_bound(key); }
 
     /**
        Indicate that the calling element has written all the data it
-- 
2.43.0


From 7c2ea49b832244c96d21b63f17d96c9331a9ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 39/43] fix: let an unverified write replace the value of a
 SharedMap key

---
 src/sst/core/shared/sharedMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sst/core/shared/sharedMap.h b/src/sst/core/shared/sharedMap.h
index 8a0d96c..b66ae09 100644
--- a/src/sst/core/shared/sharedMap.h
+++ b/src/sst/core/shared/sharedMap.h
@@ -322,7 +322,10 @@ private:
             auto success = map.insert(std::make_pair(key, value));
             if ( !success.second ) {
                 // Wrote to a key that already existed
-                if ( verify != NO_VERIFY && value != success.first->second ) {
+                if ( verify == NO_VERIFY ) {
+                    success.first->second = value;
+                }
+                else if ( value != success.first->second ) {
                     Private::getSimulationOutput().fatal(
                         CALL_INFO, 1, "ERROR: wrote two different values to same key in SharedMap %s\n", name.c_str());
                 }
-- 
2.43.0


From bc3475973a45f1364683e604429624ca33b58790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 40/43] fix: restore the publication state of shared objects

---
 src/sst/core/shared/sharedObject.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sst/core/shared/sharedObject.h b/src/sst/core/shared/sharedObject.h
index 6317284..7821b15 100644
--- a/src/sst/core/shared/sharedObject.h
+++ b/src/sst/core/shared/sharedObject.h
@@ -207,14 +207,26 @@ protected:
         locked(false)
     {}
 
-    SharedObjectData() {}
+    SharedObjectData() :
+        share_count(0),
+        publish_count(0),
+        fully_published(false),
+        locked(false)
+    {}
 
     /**
        Destructor for SharedObjectData
      */
     virtual ~SharedObjectData() {}
 
-    void serialize_order(serializer& ser) override { SST_SER(name); }
+    void serialize_order(serializer& ser) override
+    {
+        SST_SER(name);
+        SST_SER(share_count);
+        SST_SER(publish_count);
+        SST_SER(fully_published);
+        SST_SER(locked);
+    }
 
     ImplementVirtualSerializable(SharedObjectData);
 };
-- 
2.43.0


From c95d794e16e941e8d04eff2f7cc44ff73f0db3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 41/43] fix: place subcomponents with their component in the
 single partitioner

---
 src/sst/core/impl/partitioners/singlepart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/impl/partitioners/singlepart.cc b/src/sst/core/impl/partitioners/singlepart.cc
index e9e9c2f..4ab8ad9 100644
--- a/src/sst/core/impl/partitioners/singlepart.cc
+++ b/src/sst/core/impl/partitioners/singlepart.cc
@@ -26,6 +26,6 @@ SSTSinglePartition::performPartition(ConfigGraph* graph)
     ConfigComponentMap_t& compMap = graph->getComponentMap();
 
     for ( auto comp : compMap ) {
-        comp->rank = RankInfo(0, 0);
+        comp->setRank(RankInfo(0, 0));
     }
 }
-- 
2.43.0


From bbd89f3976e1d29a8f07c5b214a4bf4a553f4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 42/43] fix: create enabled-all statistics of extensions in the
 component they extend

---
 src/sst/core/baseComponent.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sst/core/baseComponent.h b/src/sst/core/baseComponent.h
index 8964028..f1024b6 100644
--- a/src/sst/core/baseComponent.h
+++ b/src/sst/core/baseComponent.h
@@ -731,9 +731,10 @@ private:
         // Explicitly enabled stats are assigned component-unique IDs and can be shared across subcomponents
         // so creation and management happens in the parent component
         Statistics::StatisticBase* base_stat =
-            id == STATALL_ID ? createEnabledAllStatistic(params, name, stat_sub_id, std::move(create))
-                             : getParentComponent()->createExplicitlyEnabledStatistic(
-                                   params, id, name, stat_sub_id, std::move(create));
+            id == STATALL_ID
+                ? my_info_->component->createEnabledAllStatistic(params, name, stat_sub_id, std::move(create))
+                : getParentComponent()->createExplicitlyEnabledStatistic(
+                      params, id, name, stat_sub_id, std::move(create));
 
         // Ugh, dynamic casts hurt my eyes, but I must do this
         auto* statistic = dynamic_cast<Statistics::Statistic<T>*>(base_stat);
-- 
2.43.0


From f5b81e32c975cf520fdb7371c46bf8498e238e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:32 +0000
Subject: [PATCH 43/43] fix: keep the coordinates of components over a restart

---
 src/sst/core/componentInfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sst/core/componentInfo.cc b/src/sst/core/componentInfo.cc
index d4151f7..973394e 100644
--- a/src/sst/core/componentInfo.cc
+++ b/src/sst/core/componentInfo.cc
@@ -229,7 +229,7 @@ ComponentInfo::serialize_order(SST::Core::Serialization::serializer& ser)
 
     SST_SER(defaultTimeBase);
 
-    // SST_SER(coordinates);
+    SST_SER(coordinates);
     SST_SER(subIDIndex);
     SST_SER(const_cast<std::string&>(slot_name));
     SST_SER(slot_num);
-- 
2.43.0

