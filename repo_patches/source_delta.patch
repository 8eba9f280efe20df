From ce03214e8b8a95100ed12349bedf036d46db6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 01/69] fix: worker threads keep a pointer to their record,
 which must survive growth of the pool

---
 MEQ/src/MTPool.cc | 1 -
 MEQ/src/MTPool.h  | 5 ++++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b8b874f..a034220 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -63,7 +63,6 @@ void stop  ()
 
 Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
 {
-  workers_.reserve(128);
   Thread::Mutex::Lock lock;
   if( !plock )
     plock = &lock;
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 44f3dde..2003f27 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -29,6 +29,8 @@
 #include <TimBase/Timer.h>
 #include <MEQ/NodeNursery.h>
 #include <list>
+#include <deque>
+#include <vector>
 
 namespace Meq
 {
@@ -230,7 +232,8 @@ namespace Meq
         WorkOrderQueue wo_queue_;
 
       // worker threads
-        std::vector<WorkerData> workers_;
+        // (a deque, since each thread keeps a pointer to its own entry)
+        std::deque<WorkerData> workers_;
 
         // number of busy threads per each tree depth
         std::vector<int> nthr_;
-- 
2.43.0


From 61839d69ed0dd1138255f2c7aac6b7d045b561ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 02/69] fix: depth counters not grown when a thread joins the
 pool at a new depth

---
 MEQ/src/MTPool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index a034220..8754e2b 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -94,7 +94,7 @@ void Brigade::join (int state,int depth)
     nidle_++;
   else
   {
-    if( nthr_.size() >= uint(depth) )
+    if( nthr_.size() <= uint(depth) )
       nthr_.resize(depth+100,0);
     nthr_[depth]++;
   }
-- 
2.43.0


From 55b89477572b8525855566ca8ca9b0ad78f23849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 03/69] fix: queued work orders leaked when a client clears the
 queue

---
 MEQ/src/MTPool.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index 8754e2b..d47c85c 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -301,7 +301,10 @@ void Brigade::clearQueue (const NodeNursery &client)
     WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
     if( wo && &(wo->clientref) == &client )
       wo_queue_.erase(iter++);
+    {
     else
+      delete wo;
+    }
       ++iter;
   }
 }
-- 
2.43.0


From 962e540d1e0f0daeecf6e5b317131ad64ff2fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 04/69] fix: pool shutdown misses worker threads that have not
 started running yet

---
 MEQ/src/MTPool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index d47c85c..d330c29 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -78,6 +78,7 @@ Brigade::Brigade (int nwork,int max_busy,Thread::Mutex::Lock *plock)
     WorkerData &wd = workers_.back();
     wd.state = IDLE;
     wd.brigade = this;
+    wd.launched_by_us = true;
     wd.thread_id = Thread::create(startWorker,&wd);
   }
   pid_ = getpid();
@@ -124,7 +125,6 @@ string Brigade::sdebug (int detail)
 void * Brigade::startWorker (void *pwd)
 {
   WorkerData & wd = *static_cast<WorkerData*>(pwd);
-  wd.launched_by_us = true;
   // store per-thread context
   context_pointer_.set(pwd);
   // enable immediate cancellation
@@ -158,6 +158,7 @@ void Brigade::awakenWorker ()
     nidle_++;
     wd.state = IDLE;
     wd.brigade = this;
+    wd.launched_by_us = true;
     wd.thread_id = Thread::create(startWorker,&wd);
   }
   // else simply awaken an idle worker
@@ -300,11 +301,11 @@ void Brigade::clearQueue (const NodeNursery &client)
   {
     WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
     if( wo && &(wo->clientref) == &client )
-      wo_queue_.erase(iter++);
     {
-    else
+      wo_queue_.erase(iter++);
       delete wo;
     }
+    else
       ++iter;
   }
 }
-- 
2.43.0


From 13f0ec898086de7b77b9a2796beac152709863e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 05/69] fix: child poll state touched by worker threads without
 holding the poll mutex

---
 MEQ/src/NodeNursery.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..e235fd5 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -235,9 +235,9 @@ void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
   // do nothing if poll is already finished (this may be possible if the
   // main thread aborted execute())
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   if( !mt.polling_ )
     return;
-  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   // store result in child result queue
   mt.child_retqueue_.push_back(MT_ChildResult());
   MT_ChildResult &qres = mt.child_retqueue_.back();
@@ -257,9 +257,9 @@ void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 {
   // do nothing if poll is already finished (this may be possible if the
   // main thread aborted execute())
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   if( !mt.polling_ )
     return;
-  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   res.resref.detach(); // discard result straight off but do store the return code
   child_retcodes_[ichild] = res.retcode;
   // add time to profiling timer
@@ -272,6 +272,7 @@ void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 
 void NodeNursery::mt_cleanupAfterPoll ()
 {
+   Thread::Mutex::Lock lock(mt.child_poll_cond_);
    mt.child_retqueue_.clear();
    async_poll_in_progress_ = background_poll_in_progress_ = false;
 }
@@ -283,12 +284,13 @@ void NodeNursery::mt_abortPoll ()
 {
   if( !mt.cur_brigade_ )
     return;
-  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
   mt.abandon_ = true;
   mt.polling_ = false;
+  mt.child_poll_cond_.broadcast();
+  lock.release();
   // clear out orders placed by us
   mt.cur_brigade_->clearQueue(*this);
-  lock.release();
   // clean up (leaving brigade if needed)
   mt_cleanupAfterPoll();
 }
-- 
2.43.0


From 4635b0672484bab534754b807a5fa54bbf721b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 06/69] fix: async and background polls inherit the abandoned
 state of an earlier poll

---
 MEQ/src/NodeNursery.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index e235fd5..69e78ff 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -193,6 +193,7 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
   if( mt_checkBrigadeAvailability(lock,req) )
   {
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
@@ -630,6 +631,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
   {
     background_poll_in_progress_ = true;
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
-- 
2.43.0


From 7e2811c40e423a45808b6c49b6bb2333de5310c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 07/69] fix: multithreaded background poll tests the wrong
 child for being enabled

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 69e78ff..0fc9b1c 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -646,7 +646,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
     for( int i=numChildren()-1; i>=0; i-- )
     {
       int ichild = child_poll_order_[i];
-      if( isChildEnabled(i) )
+      if( isChildEnabled(ichild) )
       {
         mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
             *this,&NodeNursery::mt_receiveBackgroundResult,getChild(ichild),ichild,req,depth));
-- 
2.43.0


From d77dc9c2ba4d43edcba82dc7e08f49df9c710122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 08/69] fix: polling thread not woken up when a multithreaded
 poll is abandoned

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 0fc9b1c..cd1da43 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -461,7 +461,7 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
   mt.child_retcount_++;
-  if( mt.child_retcount_ >= mt.numchildren_ )
+  if( mt.child_retcount_ >= mt.numchildren_ || mt.abandon_ )
     mt.child_poll_cond_.broadcast();
   // if abandoning poll, clear work order queue. Due to the mutex lock
   // above, this will happen only once
-- 
2.43.0


From e7af99aeab4262d52f7c56fb473ca7b20d57329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 09/69] fix: missing data checked against the fail policy after
 polling children

---
 MEQ/src/Node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..287c7ff 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -906,7 +906,7 @@ int Node::pollChildren (Result::Ref &resref,
   // if aborted, return without polling stepchildren
   if( retcode&RES_ABORT ||
       ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||
-      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )
+      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )
   {
     timers().children.stop();
     return retcode;
-- 
2.43.0


From 78d47ab578d8d73e55a83e66f294a89d81aa6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 10/69] fix: a child's abort ignored by the multithreaded poll
 if its code also flags a fail

---
 MEQ/src/NodeNursery.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index cd1da43..b0bf634 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -441,8 +441,10 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   // store result in child result queue
   (*mt.pchildres_)[ichild].xfer(res.resref);
   child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
+  if( res.retcode&NodeFace::RES_ABORT )
+    mt.abandon_ = true;
   // register a fail if received
-  if( res.retcode&NodeFace::RES_FAIL )
+  else if( res.retcode&NodeFace::RES_FAIL )
   {
     const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
     child_fails_.push_back(pchildres);
@@ -455,8 +457,6 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
     if( missingDataPolicy() == AidAbandonPropagate )
       mt.abandon_ = true;
   }
-  else if( res.retcode&NodeFace::RES_ABORT )
-    mt.abandon_ = true;
   // add time to profiling timer
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
-- 
2.43.0


From e40425eb00eee0d59a3c2d6a0c53483dacb10e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 11/69] fix: a failed try-lock is taken for a held lock

---
 TimBase/src/Thread/Mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TimBase/src/Thread/Mutex.h b/TimBase/src/Thread/Mutex.h
index 5bc2583..5c417d4 100644
--- a/TimBase/src/Thread/Mutex.h
+++ b/TimBase/src/Thread/Mutex.h
@@ -223,7 +223,7 @@ namespace LOFAR
       if( options == TRY )
       {
         dprintf(3)("init: try-locking mutex %p\n",(void*)pmutex);
-        if( pthread_mutex_trylock(pmutex) < 0 )
+        if( pthread_mutex_trylock(pmutex) != 0 )
           pmutex = 0;
       }
       else
-- 
2.43.0


From fb5571bb8bcc454eb293adc5cfb46404fc73ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 12/69] fix: assigning an unlocked lock object dereferences a
 null mutex

---
 TimBase/src/Thread/Mutex.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TimBase/src/Thread/Mutex.h b/TimBase/src/Thread/Mutex.h
index 5c417d4..23ea7f8 100644
--- a/TimBase/src/Thread/Mutex.h
+++ b/TimBase/src/Thread/Mutex.h
@@ -193,7 +193,10 @@ namespace LOFAR
     {
       if( pmutex )
         pthread_mutex_unlock(pmutex);
-      init(*right.pmutex,0);
+      if( right.pmutex )
+        init(*right.pmutex,0);
+      else
+        pmutex = 0;
       return *this;
     }
 
-- 
2.43.0


From 57099fb5374664649ef2ccefa4271940aa2c2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 13/69] fix: timed waits fail when the deadline's nanoseconds
 exceed a second

---
 TimBase/src/Thread/Condition.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TimBase/src/Thread/Condition.h b/TimBase/src/Thread/Condition.h
index efca9a8..bdb50a1 100644
--- a/TimBase/src/Thread/Condition.h
+++ b/TimBase/src/Thread/Condition.h
@@ -139,6 +139,8 @@ namespace LOFAR
       gettimeofday(&now,0);
       ts.tv_sec = now.tv_sec + sec;
       ts.tv_nsec = now.tv_usec*1000 + ns;
+      ts.tv_sec += ts.tv_nsec/1000000000;
+      ts.tv_nsec %= 1000000000;
       return pthread_cond_timedwait(&cond,&mutex,&ts);
     }
 
-- 
2.43.0


From 25f92ba7c977f06d97325265409df62b8657438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 14/69] fix: thread table read without its mutex while other
 threads are being created

---
 TimBase/src/Thread/Thread.cc | 12 ++++++++++++
 TimBase/src/Thread/Thread.h  |  6 ++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/TimBase/src/Thread/Thread.cc b/TimBase/src/Thread/Thread.cc
index 2812cc1..0d86eda 100644
--- a/TimBase/src/Thread/Thread.cc
+++ b/TimBase/src/Thread/Thread.cc
@@ -79,6 +79,18 @@ namespace LOFAR
       return id;
     }
     
+    ThrID getThreadID (int num)
+    {
+      Thread::Mutex::Lock lock(thread_map_mutex_);
+      return thread_list_[num];
+    }
+
+    int getThreadNum (ThrID id)
+    {
+      Thread::Mutex::Lock lock(thread_map_mutex_);
+      return thread_map_[id];
+    }
+
     // exits current thread
     void exit (void *value)
     { 
diff --git a/TimBase/src/Thread/Thread.h b/TimBase/src/Thread/Thread.h
index 3347866..bf11577 100644
--- a/TimBase/src/Thread/Thread.h
+++ b/TimBase/src/Thread/Thread.h
@@ -164,11 +164,9 @@ namespace LOFAR
       return ThrID::self(); 
     }
     
-    inline ThrID getThreadID (int num)
-    { return thread_list_[num]; }
+    ThrID getThreadID (int num);
     
-    inline int getThreadNum (ThrID id)
-    { return thread_map_[id]; }
+    int getThreadNum (ThrID id);
 
     // Thread::create() creates a thred
     ThrID create (void * (*start)(void*),void *arg=0,const Attributes &attr = Attributes::Null());
-- 
2.43.0


From a70dd7385d824967fe6e9f7de74dc9c4294426a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 15/69] fix: node lookup by index accepts an index one past the
 end of the repository

---
 MEQ/src/Forest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..71a2ce3 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -196,7 +196,7 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -220,7 +220,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -249,7 +249,7 @@ NodeFace & Forest::findNode (const string &name)
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
@@ -258,7 +258,7 @@ NodeFace & Forest::findNode (const string &name)
 //##ModelId=3F7048570004
 const NodeFace::Ref & Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   return nodes[node_index];
 }
-- 
2.43.0


From d4adacfef8e2027bf668bbd6f3d3e75397e1e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 16/69] fix: executing a node before initialization terminates
 the process instead of returning a fail

---
 MEQ/src/Node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 287c7ff..f6d56d7 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -948,7 +948,6 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   pstate_lock_ = &state_lock;
 
   cdebug(3)<<"execute, request ID "<<req.id()<<": "<<req.sdebug(DebugLevel-1,"    ")<<endl;
-  FailWhen(internal_init_index_<0,"execute() called before init()");
   int retcode = 0;
   // this indicates the current stage (for exception handler)
   string stage;
@@ -956,6 +955,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   DMI::ExceptionList local_fails;  // this is non-empty if we detect a local fail
   try
   {
+    FailWhen(internal_init_index_<0,"execute() called before init()");
     // check for abort flag
     if( forest().abortFlag() )
       return exitAbort(RES_ABORT);
-- 
2.43.0


From 3342e7aa69beffbd390a26c9e1be76be02b3ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 17/69] fix: an error while caching a fail result is rethrown
 out of a function that must not throw

---
 MEQ/src/Node.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index f6d56d7..f56130a 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1187,8 +1187,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   {
     setExecState(CS_ES_IDLE,
           (control_status_&~(CS_RETCACHE|CS_RES_MASK))|CS_RES_FAIL);
-    exitExecute(retcode|RES_FAIL);
-    throw;
+    return exitExecute(retcode|RES_FAIL);
   }
   // no error, return
   setExecState(CS_ES_IDLE,
-- 
2.43.0


From 8141f7481c633830afb986c57e3876b833aaf691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 18/69] fix: a rejected child poll order leaves a half-updated
 order behind

---
 MEQ/src/NodeNursery.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index b0bf634..8959bbc 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -117,6 +117,7 @@ void NodeNursery::enableMultiThreaded (bool enable)
 void NodeNursery::setChildPollOrder (const std::vector<string> &order)
 {
   std::vector<bool> specified(numChildren(),false);
+  std::vector<int> new_order(numChildren());
   int nord = 0;
   FailWhen(order.size()>uint(numChildren()),"child_poll_order: too many elements");
   for( uint i=0; i<order.size(); i++ )
@@ -129,7 +130,7 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
       {
         FailWhen(specified[ich],"child_poll_order: duplicate child \""+child_name+"\"");
         specified[ich] = true;
-        child_poll_order_[nord++] = ich;
+        new_order[nord++] = ich;
         break;
       }
     }
@@ -140,9 +141,10 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
   {
     for( int ich=0; ich<numChildren(); ich++ )
       if( !specified[ich] )
-        child_poll_order_[nord++] = ich;
+        new_order[nord++] = ich;
   }
   Assert(nord == numChildren());
+  child_poll_order_ = new_order;
 }
 
 void NodeNursery::setFailPolicy (AtomicID policy)
-- 
2.43.0


From 2b2fb003acddf03c2cf4420856353e203756b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 19/69] fix: node list overrun is noticed one entry too late

---
 MEQ/src/Forest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 71a2ce3..06c321e 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -310,7 +310,7 @@ int Forest::getNodeList (DMI::Record &list,int content)
     for( uint i=1; i<nodes.size(); i++ )
       if( nodes[i].valid() )
       {
-        FailWhen(i0>num,"forest inconsistency: too many valid nodes");
+        FailWhen(i0>=num,"forest inconsistency: too many valid nodes");
         NodeFace &node = nodes[i]();
         DMI::Record::Ref nodestate;
         if( lni )
-- 
2.43.0


From 55fe3da88761e35233d881dbbff2989f738ed2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 20/69] fix: a gateway logs while holding its routing table,
 which logging needs in the opposite order

---
 OCTOPUSSY/src/MTGatewayWP.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index c79622f..6f0987d 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -353,7 +353,10 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
       Thread::Mutex::Lock lock(remote_subs_mutex);
       RSI iter = remote_subs.find(msg.from());
       if( iter == remote_subs.end() )
+      {
+        lock.release(); // logging publishes a message, which needs the lock again
         lprintf(1,"warning: got Bye [%s] from unknown remote WP\n",msg.sdebug(1).c_str());
+      }
       else
       {
         dprintf(2)("got Bye [%s], deleting routing entry\n",msg.sdebug(1).c_str());
-- 
2.43.0


From 7ea70fe7636721b5bd3744e3dbe2d982e0f1e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 21/69] fix: a gateway updates its routing table at connection
 without locking it

---
 OCTOPUSSY/src/MTGatewayWP.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index 6f0987d..a1d6d3a 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -523,7 +523,7 @@ int MTGatewayWP::processInitMessage (const void *block,size_t blocksize)
   const char *data = static_cast<const char *>(block) + hdrsize,
              *enddata = static_cast<const char *>(block) + blocksize;
   
-  Thread::Mutex::Lock(remote_subs_mutex);
+  Thread::Mutex::Lock lock(remote_subs_mutex);
   for( int i=0; i<nwp; i++ )
   {
     size_t asz = *(hdr++), ssz = *(hdr++);
-- 
2.43.0


From ea13e8ccb11256fe9a754c9b432876689b160cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 22/69] fix: a corrupt gateway init block can claim more remote
 processes or bytes than it holds

---
 OCTOPUSSY/src/MTGatewayWP.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/OCTOPUSSY/src/MTGatewayWP.cc b/OCTOPUSSY/src/MTGatewayWP.cc
index a1d6d3a..9af6945 100755
--- a/OCTOPUSSY/src/MTGatewayWP.cc
+++ b/OCTOPUSSY/src/MTGatewayWP.cc
@@ -512,23 +512,22 @@ void MTGatewayWP::processIncoming (Message::Ref &ref)
 int MTGatewayWP::processInitMessage (const void *block,size_t blocksize)
 {
   FailWhen( !block,"no block" );
-  size_t hdrsize;
   const size_t *hdr = static_cast<const size_t *>(block);
-  int nwp;
   // big enough for header? 
-  FailWhen( blocksize < sizeof(size_t) || 
-            blocksize < ( hdrsize = (1 + 2*( nwp = *(hdr++) ))*sizeof(size_t) ),
-            "corrupt block");
+  FailWhen( blocksize < sizeof(size_t),"corrupt block");
+  size_t nwp = *(hdr++);
+  FailWhen( nwp > (blocksize/sizeof(size_t) - 1)/2,"corrupt block");
+  size_t hdrsize = (1 + 2*nwp)*sizeof(size_t);
   // scan addresses and subscription blocks
   const char *data = static_cast<const char *>(block) + hdrsize,
              *enddata = static_cast<const char *>(block) + blocksize;
   
   Thread::Mutex::Lock lock(remote_subs_mutex);
-  for( int i=0; i<nwp; i++ )
+  for( size_t i=0; i<nwp; i++ )
   {
     size_t asz = *(hdr++), ssz = *(hdr++);
     // check block size again
-    FailWhen( data+asz+ssz > enddata,"corrupt block" ); 
+    FailWhen( asz > size_t(enddata-data) || ssz > size_t(enddata-data)-asz,"corrupt block" ); 
     // unpack address 
     MsgAddress addr; 
     addr.unpack(data,asz); data += asz;
-- 
2.43.0


From 0eda8578285ac6f25e374763309412f014f9f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 23/69] fix: a reader waiting to become the writer is not woken
 when the other readers leave

---
 TimBase/src/Thread/SmartLock.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TimBase/src/Thread/SmartLock.cc b/TimBase/src/Thread/SmartLock.cc
index a035c9a..3fdb590 100644
--- a/TimBase/src/Thread/SmartLock.cc
+++ b/TimBase/src/Thread/SmartLock.cc
@@ -141,8 +141,9 @@ namespace LOFAR
       Mutex::Lock lock(cond);
       if( !readers )
         return -1;
-      if( !--readers )
-        cond.signal();
+      // a reader waiting to upgrade is satisfied with one remaining (its own) read-lock
+      if( --readers <= 1 )
+        cond.broadcast();
       return 0;  
       //## end Thread::SmartLock::runlock%84F319FCFEED.body
     }
@@ -157,7 +158,7 @@ namespace LOFAR
       if( !--writers )
       {
         writer_id = 0;
-        cond.signal();
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::wunlock%88437021FEED.body
-- 
2.43.0


From 065c2ceb2450decc69a56d13399d1d72230b995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 24/69] fix: downgrading a nested write lock forgets its owner
 and wakes only one waiting reader

---
 TimBase/src/Thread/SmartLock.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TimBase/src/Thread/SmartLock.cc b/TimBase/src/Thread/SmartLock.cc
index 3fdb590..729b135 100644
--- a/TimBase/src/Thread/SmartLock.cc
+++ b/TimBase/src/Thread/SmartLock.cc
@@ -190,9 +190,9 @@ namespace LOFAR
       FailWhen(writer_id != self(),"no write lock held");
       {
         readers++;
-        writers--;
-        writer_id = 0;
-        cond.signal();
+        if( !--writers )
+          writer_id = 0;
+        cond.broadcast();
       }
       return 0;  
       //## end Thread::SmartLock::rlock_downgrade%3D1982B60364.body
-- 
2.43.0


From 2788d759d50d3e14f6467844c6601be289382f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 25/69] fix: wake up waiting receivers under the queue lock
 when a WP stops

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..6695436 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -604,7 +604,7 @@ void WPInterface::do_stop ()
     stop();
   // wake up anyone who may be waiting on the queue condition variable
 #ifdef USE_THREADS
-  queueCondition().broadcast();
+  wakeWorker(true);
 #endif
 }
 
-- 
2.43.0


From 63e1e63a889814a8b199cc76a5586ee2602d4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 26/69] fix: remove a delivered message from the queue even if
 receive() has taken over its ref

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 6695436..1e6ac23 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -806,7 +806,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
-- 
2.43.0


From ddfe88309f75d99008885192aba2692bceb40948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 27/69] fix: reject negative positions in
 WPInterface::dequeue()

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 1e6ac23..1413600 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -974,7 +974,7 @@ bool WPInterface::dequeue (int pos, Message::Ref *ref)
 {
   Thread::Mutex::Lock lock(queue_cond);
   int qsz = queue().size();
-  FailWhen( pos >= qsz,"dequeue: illegal position" );
+  FailWhen( pos<0 || pos >= qsz,"dequeue: illegal position" );
   if( !pos && qsz>1 )
   {
     setNeedRepoll(true);
-- 
2.43.0


From 68c2ac6e5921511b01db707d97c92e52df51cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 28/69] fix: lock the timeout list while detaching a WP

---
 OCTOPUSSY/src/Dispatcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..3ad01b3 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -196,11 +196,13 @@ void Dispatcher::detach (const WPID &id, bool delay)
       "wpid '"+id.toString()+"' is not attached to this dispatcher");
   WPInterface *pwp = iter->second;
   // remove all events associated with this WP
+  Thread::Mutex::Lock tolock(tomutex);
   for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )
     if( iter->pwp == pwp )
       timeouts.erase(iter++);
     else
       iter++;
+  tolock.release();
   rebuildInputs(pwp);
   rebuildSignals(pwp);
   // if asked to delay, then move WP ref to delay stack, it will be
-- 
2.43.0


From 6dfff1abd04ca5a07e6ec38481c1fe483b2b913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 29/69] fix: honour the scope argument of
 WPInterface::publish(id,...)

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 1413600..f2c11ab 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1120,7 +1120,7 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 int WPInterface::publish (const HIID &id,int,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,0,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From 16accbcad43564a3bc3c24e4304fc12e0a04e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 30/69] fix: ProxyWP.receive_all() looks at the queue only
 under its lock

---
 OCTOPython/src/ProxyWPObject.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/OCTOPython/src/ProxyWPObject.cc b/OCTOPython/src/ProxyWPObject.cc
index bd85ee0..4bab806 100644
--- a/OCTOPython/src/ProxyWPObject.cc
+++ b/OCTOPython/src/ProxyWPObject.cc
@@ -279,8 +279,6 @@ static PyObject * PyProxyWP_receive_all (PyProxyWP* self,PyObject *args)
     WPInterface &wp = self->wpref();
     if( !wp.isRunning() )
       returnError(NULL,OctoPython,"proxy wp no longer running");
-    if( wp.queue().empty() )
-      returnNone; 
     Thread::Mutex::Lock lock(wp.queueCondition());
     int n = wp.queue().size();
     if( !n )
-- 
2.43.0


From 337e8e4f71c5eed0c76a60bc6ef0b95065177e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 31/69] fix: execNodeCommand overwrote the first command id
 instead of checking it

---
 MeqServer/src/MeqServer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 1a37a1e..698bcff 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -1064,7 +1064,7 @@ bool MeqServer::execNodeCommand (DMI::Record::Ref &out,ExecQueueEntry &qe)
 {
   bool verbose = false;
   // verify inputs
-  Assert(qe.command[0] = AidNode);
+  Assert(qe.command[0] == AidNode);
   HIID command = qe.command.subId(1);
   // use argument record to resolve to a Node object, throw exception on failure
   bool getstate;
-- 
2.43.0


From d1c9adb7b277fcb051c7a17246b73898795b056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 32/69] fix: replies, node status and breakpoint events were
 posted on the control channel without the control mutex

---
 MeqServer/src/MeqServer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 698bcff..e19e6d3 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -956,6 +956,7 @@ void MeqServer::reportNodeStatus (Node &node,int oldstat,int newstat)
   // node status reported within the message ID itself. Message payload is empty
   HIID ev = EvNodeStatus | node.nodeIndex() | newstat;
   ev |= node.currentRequestId();
+  Thread::Mutex::Lock lock(control_mutex_);
   control().postEvent(ev,ObjRef(),AidDebug);
 }
 
@@ -1024,7 +1025,7 @@ void MeqServer::processBreakpoint (Node &node,int bpmask,bool global)
   DMI::Record &rec = ref <<= new DMI::Record;
   fillForestStatus(rec);
   rec[AidMessage] = makeNodeMessage("stopped at ",node,":" + node.getStrExecState());
-  control().postEvent(EvDebugStop,ref);
+  postEvent(EvDebugStop,ref);
   debug_bp_node = &node;
 }
 
@@ -1153,7 +1154,7 @@ DMI::Record::Ref MeqServer::execCommandEntry (ExecQueueEntry &qe,bool savestate,
       setState(oldstate,true);  // quiet=true, no publish, since we post event anyway
       fillAppState(out());
     }
-    control().postEvent(qe.reply,out);
+    postEvent(qe.reply,out);
     out.detach();
     return out;
   }
@@ -1214,7 +1215,7 @@ DMI::Record::Ref MeqServer::executeCommand (const HIID &cmdid,DMI::Record::Ref &
       {
         DMI::Record::Ref out(DMI::ANONWR);
         out[AidError] = "unknown command "+cmdid.toString('.');
-        control().postEvent(qe.reply,out);
+        postEvent(qe.reply,out);
         return result;
       }
       else
-- 
2.43.0


From b192d947ae9b54b83a92ff49d3a49914cfa0aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 33/69] fix: halting the server could leave threads waiting on
 the execution queue

---
 MeqServer/src/MeqServer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index e19e6d3..82569e4 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -238,7 +238,10 @@ NodeFace & MeqServer::resolveNode (bool &getstate,const DMI::Record &rec)
 void MeqServer::halt (DMI::Record::Ref &out,DMI::Record::Ref &)
 {
   cdebug(1)<<"halting MeqServer"<<endl;
+  Thread::Mutex::Lock lock(exec_cond_);
   running_ = false;
+  exec_cond_.broadcast();
+  lock.release();
   out()[AidMessage] = "halting the meqserver";
   forest.closeLog();
 }
@@ -1231,7 +1234,7 @@ DMI::Record::Ref MeqServer::executeCommand (const HIID &cmdid,DMI::Record::Ref &
     {
       // for sync commands, make sure the async queue is completed first
       Thread::Mutex::Lock lock(exec_cond_);
-      while( !exec_queue_.empty() )
+      while( running_ && !exec_queue_.empty() )
         exec_cond_.wait();
     }
     result = execCommandEntry(qe,false,post_results); // false=do not save/restore state
@@ -1318,7 +1321,7 @@ void MeqServer::run ()
   }
   // signal exec thread to exit (running_ = false)
   Thread::Mutex::Lock lock(exec_cond_);
-  exec_cond_.signal();
+  exec_cond_.broadcast();
   lock.release();
   exec_thread_.join();
 
-- 
2.43.0


From a023dca4e87d950a603a62f2e314a8bfed7007c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 34/69] fix: a node list built while the forest changed could
 carry the later forest serial

---
 MeqServer/src/MeqServer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 82569e4..37b7a94 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -521,7 +521,10 @@ void MeqServer::getNodeList (DMI::Record::Ref &out,DMI::Record::Ref &in)
   cdebug(2)<<"getNodeList: building list"<<endl;
   DMI::Record &list = out <<= new DMI::Record;
   int serial = in[FForestSerial].as<int>(0);
-  if( !serial || serial != forest_serial )
+  // note the serial before building the list: if the forest is changed by the
+  // execution thread meanwhile, the list must not claim to be up-to-date
+  int current_serial = forest_serial;
+  if( !serial || serial != current_serial )
   {
     int content =
       ( in[AidNodeIndex].as<bool>(true) ? Forest::NL_NODEINDEX : 0 ) |
@@ -532,7 +535,7 @@ void MeqServer::getNodeList (DMI::Record::Ref &out,DMI::Record::Ref &in)
       ( in[FProfilingStats].as<bool>(false) ? Forest::NL_PROFILING_STATS : 0 );
     int count = forest.getNodeList(list,content);
     cdebug(2)<<"getNodeList: got list of "<<count<<" nodes"<<endl;
-    out[FForestSerial] = forest_serial;
+    out[FForestSerial] = current_serial;
   }
   fillForestStatus(out(),in[FGetForestStatus].as<int>(0));
 }
-- 
2.43.0


From 5a1d9a3286966ad26a35d7e58c289bbc2033c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 35/69] fix: a command with arguments of the wrong type stopped
 the server

---
 MeqServer/src/MeqServer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/MeqServer.cc b/MeqServer/src/MeqServer.cc
index 37b7a94..b5cdb57 100644
--- a/MeqServer/src/MeqServer.cc
+++ b/MeqServer/src/MeqServer.cc
@@ -1301,7 +1301,15 @@ void MeqServer::run ()
       else
       {
         DMI::Record::Ref cmdrec = cmd_data;
-        executeCommand(cmdid,cmdrec,true); // true=post results to output
+        // malformed arguments (e.g. of the wrong type) must not stop the server
+        try
+        {
+          executeCommand(cmdid,cmdrec,true); // true=post results to output
+        }
+        catch( std::exception &exc )
+        {
+          postError(exc);
+        }
       }
     }
     // else process some explicit commands
-- 
2.43.0


From 4c1032ae30f3b838a575b5b759abf95f47aa331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 36/69] fix: Vec::fromBlock read the header of a block too
 small to have one and accepted a negative size

---
 DMI/src/Vec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index d260c3a..dcbedd2 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -311,10 +311,10 @@ int DMI::Vec::fromBlock (BlockSet& set)
   set.pop(headref_);  
   size_t hsize = headref_->size();
   phead_ = static_cast<HeaderBlock*>(const_cast<void*>(headref_->data()));
-  // verify BObj header
-  int blockcount = BObj::checkHeader(phead_);
   // first two ints in header block are type and size
   FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );
+  // verify BObj header
+  int blockcount = BObj::checkHeader(phead_);
   // get type and size from header
   mytype  = phead_->type;
   mysize_ = phead_->size;
@@ -325,6 +325,7 @@ int DMI::Vec::fromBlock (BlockSet& set)
   }
   else
     scalar = false;
+  FailWhen( mysize_ < 0,"malformed header block" );
   if( !mytype )  // uninitialized field
     return 1;
   // obtain type information, check that type is supported
-- 
2.43.0


From 28f8706ded3b503a89dcae73f742a4ee7b392aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 37/69] fix: Record::fromBlock accepted negative field, id and
 block counts

---
 DMI/src/Record.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 1aa3da2..7f6c1db 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -239,6 +239,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   int blockcount = BObj::checkHeader(phead);
   // get # of fields
   int nfields = phead->num_fields;
+  FailWhen( nfields < 0,"malformed header block" );
   const BlockFieldInfo *fieldinfo = phead->fields;
   size_t off_hids = sizeof(Header) + sizeof(BlockFieldInfo)*nfields; // IDs start at this offset
   FailWhen( hsize < off_hids,"malformed header block" );
@@ -248,7 +249,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   {
     // extract ID from header block
     int idsize = fieldinfo->idsize;
-    FailWhen( hsize < off_hids+idsize,"malformed header block" );
+    FailWhen( idsize < 0 || hsize < off_hids+idsize,"malformed header block" );
     HIID id(chead+off_hids,idsize);
     off_hids += idsize;
     // create field container object
@@ -256,7 +257,7 @@ int DMI::Record::fromBlock (BlockSet& set)
     int bc = fieldinfo->blockcount;
     if( bc )
     {
-      FailWhen(set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
+      FailWhen(bc<0 || set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
       field.fromBlock(set,bc);
       nref += bc;
     }
-- 
2.43.0


From 9d19c09dbb25e1da68f38e6d090ade2e409d25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 38/69] fix: NumArray::fromBlock accepted negative and
 overflowing shapes and read a shape beyond its block

---
 DMI/src/NumArray.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..a9932d9 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -461,7 +461,7 @@ int DMI::NumArray::fromBlock (BlockSet& set)
               "invalid array element type" + itsScaType.toString() ); 
     uint rank = hdr->rank;
     FailWhen( rank < 1 || rank > MaxLorrayRank,"invalid array rank" );
-    FailWhen( hsize < (2+rank)*sizeof(int), "malformed data block" );
+    FailWhen( hsize < sizeof(Header)+rank*sizeof(uint), "malformed data block" );
     // derive array type & element size
     itsType = TpArray(itsScaType,rank);
     itsElemSize = itsScaType == Tpstring ? sizeof(string) : typeinfo.size;
@@ -470,7 +470,12 @@ int DMI::NumArray::fromBlock (BlockSet& set)
     itsShape.resize(rank);
     itsSize = 1;
     for( uint i=0; i<rank; i++ )
-      itsSize *= itsShape[i] = hdr->shape[i];
+    {
+      // shape must be non-negative, and total size must not overflow
+      uint n = hdr->shape[i];
+      FailWhen( int(n) < 0 || (n && itsSize > (size_t(1)<<48)/n),"invalid array shape" );
+      itsSize *= itsShape[i] = n;
+    }
 
     // compute size of data block & offset into it
     size_t blocksize = sizeof(Header) + sizeof(uint)*rank;
-- 
2.43.0


From eaefd2ba1cae8659a012d3661c02f66163484b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 39/69] fix: Message::fromBlock read the header of a block too
 small to have one and accepted negative sizes

---
 OCTOPUSSY/src/Message.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/Message.cc b/OCTOPUSSY/src/Message.cc
index b318469..539ab1c 100755
--- a/OCTOPUSSY/src/Message.cc
+++ b/OCTOPUSSY/src/Message.cc
@@ -174,9 +174,10 @@ int Message::fromBlock (BlockSet& set)
   // get and unpack header
   BlockRef href;
   set.pop(href);
+  FailWhen(href->size() < sizeof(HeaderBlock),"corrupt header block");
   const HeaderBlock & hdr = *href->pdata<HeaderBlock>();
   int expect_blockcount = BObj::checkHeader(&hdr);
-  FailWhen(href->size() < sizeof(HeaderBlock) ||
+  FailWhen(hdr.idsize<0 || hdr.fromsize<0 || hdr.tosize<0 || hdr.latsize<0 ||
            href->size() != sizeof(HeaderBlock) + 
             hdr.idsize + hdr.fromsize + hdr.tosize + hdr.latsize,"corrupt header block");
   priority_ = hdr.priority;
-- 
2.43.0


From d5c6abe3aaf986313bce1fb0406fe5f9ca943825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 40/69] fix: ColumnarTableTile::fromBlock did not check the
 size of its header block and id

---
 VisCube/src/ColumnarTableTile.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VisCube/src/ColumnarTableTile.cc b/VisCube/src/ColumnarTableTile.cc
index 9f670a0..c11d8b1 100644
--- a/VisCube/src/ColumnarTableTile.cc
+++ b/VisCube/src/ColumnarTableTile.cc
@@ -333,12 +333,13 @@ int ColumnarTableTile::fromBlock (BlockSet& set)
   datablock.unlock();
   set.pop(datablock);
   datablock.lock();
+  const int maxsz = HIID::HIIDSize(MaxIdSize);
+  FailWhen(datablock->size() < sizeof(BlockHeader) + maxsz,"corrupt block");
   const BlockHeader* hdr = datablock->pdata<BlockHeader>();
   int blockcount = BObj::checkHeader(hdr);
   FailWhen(blockcount<1 || blockcount>2,"invalid block count in header");
+  FailWhen(hdr->nrow<0 || hdr->idsize<0 || hdr->idsize>maxsz,"corrupt block");
   nrow_ = hdr->nrow;
-  const int maxsz = HIID::HIIDSize(MaxIdSize);
-  FailWhen(datablock->size() < sizeof(BlockHeader) + maxsz,"corrupt block");
   // unpack the ID from the block
   id_.unpack(datablock->cdata()+sizeof(BlockHeader),hdr->idsize);
   // do we have a format? from-block it then.
-- 
2.43.0


From a7f918fdfa456be35af787a11f55be3aeb8dc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 41/69] fix: VCube and VCubeSet::fromBlock did not check the
 number of tiles and cubes in the header

---
 VisCube/src/VCube.cc    | 1 +
 VisCube/src/VCubeSet.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/VisCube/src/VCube.cc b/VisCube/src/VCube.cc
index 5e1bbc3..887a5b0 100644
--- a/VisCube/src/VCube.cc
+++ b/VisCube/src/VCube.cc
@@ -596,6 +596,7 @@ int VCube::fromBlock (BlockSet& set)
     nfreq_ = shape[1];
   }
   // now, convert the tiles
+  FailWhen( phdr->ntiles<0 || phdr->ntiles>set.size(),"corrupt header block" );
   tiles.resize(phdr->ntiles);
   for( TI iter = tiles.begin(); iter != tiles.end(); iter++ )
   {
diff --git a/VisCube/src/VCubeSet.cc b/VisCube/src/VCubeSet.cc
index 313b404..8433ca3 100644
--- a/VisCube/src/VCubeSet.cc
+++ b/VisCube/src/VCubeSet.cc
@@ -194,6 +194,7 @@ int VCubeSet::fromBlock(BlockSet& set)
   FailWhen( hdrblock->size() != sizeof(HeaderBlock),"invalid block" );
   const HeaderBlock * phdr = hdrblock->pdata<HeaderBlock>();
   int expect_bc = BObj::checkHeader(phdr);
+  FailWhen( phdr->ncubes<0 || phdr->ncubes>set.size(),"corrupt header block" );
   cubes.resize(phdr->ncubes);
   for( CI iter = cubes.begin(); iter != cubes.end(); iter++ )
   {
-- 
2.43.0


From 2dabc584b8fcc07579820e3af7b6b6be448b8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 42/69] fix: blocks could be popped off an empty block set, and
 a negative number of them moved

---
 DMI/src/BlockSet.cc | 2 +-
 DMI/src/BlockSet.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/DMI/src/BlockSet.cc b/DMI/src/BlockSet.cc
index aff7ead..1724d3d 100644
--- a/DMI/src/BlockSet.cc
+++ b/DMI/src/BlockSet.cc
@@ -32,7 +32,7 @@ namespace DMI
 //##ModelId=3BFA56540172
 int BlockSet::popMove (BlockSet& outset, int count)
 {
-  FailWhen( count>size(),"Too many refs requested in popMove" );
+  FailWhen( count<0 || count>size(),"Too many refs requested in popMove" );
   for( int i=0; i<count; i++ )
   {
     outset.pushNew().xfer(refs.front());
diff --git a/DMI/src/BlockSet.h b/DMI/src/BlockSet.h
index ae8c8c6..15ae38f 100644
--- a/DMI/src/BlockSet.h
+++ b/DMI/src/BlockSet.h
@@ -97,6 +97,7 @@ class BlockSet
       //## Removes & returns first reference in set
       BlockRef pop ()
       {
+        FailWhen(refs.empty(),"no more blocks in set");
         BlockRef out = refs.front();
         refs.pop_front();
         --cursize;
@@ -107,6 +108,7 @@ class BlockSet
       //## Removes & returns first reference in set via out
       void pop (BlockRef &out)
       {
+        FailWhen(refs.empty(),"no more blocks in set");
         out.xfer(refs.front());
         refs.pop_front();
         --cursize;
-- 
2.43.0


From 9bf3a8198ddf2a9031f9456275aa86fff5eae91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 43/69] fix: the type of a serialized object was read from a
 block too small to have a header

---
 DMI/src/DynamicTypeManager.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DMI/src/DynamicTypeManager.cc b/DMI/src/DynamicTypeManager.cc
index cba8e66..6649cc1 100644
--- a/DMI/src/DynamicTypeManager.cc
+++ b/DMI/src/DynamicTypeManager.cc
@@ -35,7 +35,10 @@ ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
   if( bset.empty() )
     return ObjRef(construct(tid));
   if( tid == 0 )
+  {
+    FailWhen( bset.front()->size() < sizeof(BObj::Header),"malformed header block" );
     tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+  }
   BObj * pobj = construct(tid);
   if( pobj )
   {
@@ -50,7 +53,10 @@ ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
 BObj * DynamicTypeManager::construct (TypeId tid, BlockSet& bset, int n)
 {
   if( tid == 0 )
+  {
+    FailWhen( bset.empty() || bset.front()->size() < sizeof(BObj::Header),"malformed header block" );
     tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+  }
   BObj *obj = construct(tid,n);
   for( int i=0; i<(n?n:1); i++ )
     obj[i].fromBlock(bset);
-- 
2.43.0


From 8b741cd11a85219e47c6e2cc1121aeced0b5ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 44/69] fix: MapPacker::unpack checked the size of a value
 against that of its key

---
 DMI/src/Packer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 9a78ad7..0f58085 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -558,7 +558,7 @@ void MapPacker<Map,KeyPacker,ValuePacker>::unpack (Map &mp, const void *block, s
     else
     {
       s2 = *(hdr++);
-      sz0 += s1;
+      sz0 += s2;
       FailWhen(sz<sz0,"corrupt block");
       ValuePacker::unpack(mp[key],data,s2);
     }
-- 
2.43.0


From c1ef208769262c907461b075d1901c6729f84374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 45/69] fix: ArrayPacker::unpack copied fixed-size elements
 from the wrong place

---
 DMI/src/Packer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 0f58085..4975d20 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -642,7 +642,7 @@ void ArrayPacker<T,ElemPacker>::unpack (T* arr, int n, const void *block, size_t
   {
     sz0 += elsize *= n;
     FailWhen(sz<sz0,"corrupt block");
-    memcpy(arr,block,elsize);
+    memcpy(arr,data,elsize);
   }
   else // variable-length elements
   {
-- 
2.43.0


From 8e18cc7f0c8a0c2ddd4f0a57f5086fae20f6ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:31 +0000
Subject: [PATCH 46/69] fix: check the block count of an empty field, and an
 array's element count before allocating it

---
 DMI/src/Packer.h | 5 ++++-
 DMI/src/Vec.cc   | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 4975d20..89f7249 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -677,7 +677,10 @@ template <class T, class ElemPacker>
 T* ArrayPacker<T,ElemPacker>::allocate (const void *block, size_t sz, int& n)
 {
   FailWhen(sz<sizeof(size_t),"corrupt block");
-  n = (int) *static_cast<const size_t*>(block);
+  size_t n0 = *static_cast<const size_t*>(block);
+  // every element needs at least one byte, so check this before allocating
+  FailWhen(n0>sz,"corrupt block");
+  n = (int) n0;
   T *ptr = new T[n];
   try {
     unpack(ptr,n,block,sz);
diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index dcbedd2..c6db583 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -327,7 +327,10 @@ int DMI::Vec::fromBlock (BlockSet& set)
     scalar = false;
   FailWhen( mysize_ < 0,"malformed header block" );
   if( !mytype )  // uninitialized field
+  {
+    FailWhen(blockcount != 1,"mismatching block count in header block");
     return 1;
+  }
   // obtain type information, check that type is supported
   typeinfo = TypeInfo::find(mytype);
   binary_type = dynamic_type = container_type = false;
-- 
2.43.0


From 994c1b43570ef868c5dc46a697209adebf9ffee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 47/69] fix: LatencyVector::pack counts and checks the room for
 its time stamp

---
 OCTOPUSSY/src/LatencyVector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/LatencyVector.cc b/OCTOPUSSY/src/LatencyVector.cc
index 784da4c..ada6564 100644
--- a/OCTOPUSSY/src/LatencyVector.cc
+++ b/OCTOPUSSY/src/LatencyVector.cc
@@ -122,10 +122,11 @@ inline size_t Packer<LatencyVector::Entry>::packSize (const LatencyVector::Entry
 //##ModelId=3DB958F30122
 size_t Octopussy::LatencyVector::pack (void *block,size_t &nleft) const
 {
+  FailWhen(nleft < sizeof(tms0),"block too small");
   Timestamp *bl = static_cast<Timestamp*>(block);
   *bl++ = tms0;
   nleft -= sizeof(tms0);
-  return SeqPacker<vector<Entry> >::pack(tms,bl,nleft);
+  return sizeof(tms0) + SeqPacker<vector<Entry> >::pack(tms,bl,nleft);
 }
 
 //##ModelId=3DB958F30148
-- 
2.43.0


From 46b38724075c1f730331405476e47425a30c9843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 48/69] fix: CountedRefBase::attach checks for a null target
 before using it

---
 DMI/src/CountedRefBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 9baa38c..3242716 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -286,13 +286,13 @@ CountedRefBase& CountedRefBase::attach (CountedRefTarget* targ, int flags)
 {
   if( targ == target_ )
     return *this;
+  // refuse to attach to NULL target_s
+  FailWhen( !targ,"can't attach to null target_" );
   // detach from old target_, if any
   Assert1(!targ->deleted_);
   dprintf(3)("attaching to %s\n",targ->debug());
   if( valid() )
     detach();
-  // refuse to attach to NULL target_s
-  FailWhen( !targ,"can't attach to null target_" );
   // If target_ is already referenced, check anon_/external for 
   // consistency with supplied flags.
   // Else, use flags to determine how to attach (anon_ by default).
-- 
2.43.0


From fe3e84eece13a942b3919828e479c4f1b11aafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 49/69] fix: copying or moving a ref that lives inside the
 assigned ref's own target no longer uses it after deletion

---
 DMI/src/CountedRefBase.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 3242716..4b5f463 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -127,6 +127,16 @@ void CountedRefBase::copy (const CountedRefBase& other, int flags, int depth)
   if( &other == this )
     return;
   dprintf(2)("copying from %s(%x,%d)\n",other.debug(),flags,depth);
+  // the other ref may live inside our own target, so get hold of its target
+  // before letting go of ours
+  if( valid() && other.valid() )
+  {
+    CountedRefBase tmp;
+    tmp.copy(other,flags&~DMI::LOCKED,depth);
+    detach();
+    xfer(tmp,flags&DMI::LOCKED);
+    return;
+  }
   detach();
   // do a little jig and dance to make sure the other is not deleting the target
   // as we speak
@@ -181,6 +191,17 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
   if( &other == this )
     return;
   dprintf(3)("xferring from %s\n",other.debug());
+  // the other ref may live inside our own target (see copy() above)
+  if( valid() && other.valid() )
+  {
+    FailWhen( isLocked(),"can't detach a locked_ ref");
+    FailWhen( other.isLocked(),"can't transfer a locked_ ref" );
+    CountedRefBase tmp;
+    tmp.xfer(other,flags&~DMI::LOCKED,depth);
+    detach();
+    xfer(tmp,flags&DMI::LOCKED);
+    return;
+  }
   detach();
   if( !other.valid() )
     empty();
-- 
2.43.0


From 5c78a1d07125b077ff04e3ecfc45eca0a0765f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 50/69] fix: privatizing the only ref to an object deletes the
 replaced object

---
 DMI/src/CountedRefBase.cc | 9 +++++++++
 DMI/src/CountedRefBase.h  | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 4b5f463..13f42d5 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -243,6 +243,8 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
     {
       // clear all properties (privatize() will set them up according to flags)
       locked_ = false;
+      // the old target may be deleted, along with its mutex
+      other_target_lock.release();
       privatize(flags,depth);
     }
   }
@@ -258,13 +260,20 @@ bool CountedRefBase::privatize (int flags, int depth)
   const int mask_local_flags = DMI::LOCKED|DMI::UNLOCKED|DMI::SHARED|DMI::COW;
   FailWhen( !valid(),"can't privatize an invalid ref" );
   dprintf1(2)("%s: privatizing to depth %d\n",debug(),flags&DMI::DEEP?-1:depth);
+  // if we turn out to be the only ref, this will dispose of the old target,
+  // once it is no longer locked
+  CountedRefBase old;
   Thread::Mutex::Lock target_lock(target_->crefMutex());
   Assert1(!target_->deleted_);
   dprintf1(2)("  %s\n",target_->debug(2,"  "));
   // no cloning is done if the object is anon_ and writable_ and we are the only ref
   bool res = true;
   if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)
+  {
+    if( isAnonTarget() && isOnlyRef() )
+      old.attach(target_);
     cloneTarget(flags&~mask_local_flags,depth-1);
+  }
   else
     res = false;
   // now change ref properties if asked to
diff --git a/DMI/src/CountedRefBase.h b/DMI/src/CountedRefBase.h
index 2e024eb..edbef76 100644
--- a/DMI/src/CountedRefBase.h
+++ b/DMI/src/CountedRefBase.h
@@ -143,7 +143,11 @@ class CountedRefBase
         Thread::Mutex::Lock target_lock(target_->crefMutex());
         Assert1(!target_->deleted_);
         if( !isDirectlyWritable() )
+        {
+          // the old target may be deleted, along with its mutex
+          target_lock.release();
           privatize();  // do COW
+        }
         return target_;
       }
 
-- 
2.43.0


From 35f3ac3f0a4a39aa9d7923d7f644df435e1b2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 51/69] fix: copying an array into one of another array type
 leaves its data pointer unset

---
 DMI/src/NumArray.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index a9932d9..bbc58f0 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -241,7 +241,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
-- 
2.43.0


From 6dbe22f380d9cf1659e4c1bcb07c31cd7afedf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:28 +0000
Subject: [PATCH 52/69] fix: a deep copy of a vector copies the objects in it

---
 DMI/src/Vec.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index c6db583..5b04a2e 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -598,6 +598,11 @@ void DMI::Vec::cloneOther (const DMI::Vec &other,int flags,int depth,bool constr
   {
     elems_.clear();
     elems_ = other.elems_;
+    // pass a deep copy on to the objects
+    if( flags&DMI::DEEP || depth>0 )
+      for( uint i=0; i<elems_.size(); i++ )
+        if( elems_[i].ref.valid() )
+          elems_[i].ref.privatize(flags|DMI::LOCKED,depth);
   }
   // handle special types -- need to be copied
   else if( !binary_type )
-- 
2.43.0


From 3337dc2e4a26568c7226e81551a7b31fc6ceca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 53/69] fix: keep a tile's column arrays in step when its block
 is made writable through the base class (a tile copied by reference could
 have its flags written into the original)

---
 VisCube/src/ColumnarTableTile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VisCube/src/ColumnarTableTile.h b/VisCube/src/ColumnarTableTile.h
index 6a5cb5f..c741907 100644
--- a/VisCube/src/ColumnarTableTile.h
+++ b/VisCube/src/ColumnarTableTile.h
@@ -89,7 +89,7 @@ class ColumnarTableTile : public DMI::BObj  //## Inherits: <unnamed>%3D919C2B03D
       // makes data block writable by ensuring COW and recomputing offsets
       // if needed; returns true if this was done, or false if nothing
       // was changed (i.e. already writable)
-      bool makeWritable ()
+      virtual bool makeWritable ()
       { 
         if( !datablock.valid() || datablock.isDirectlyWritable() )
           return false;
-- 
2.43.0


From db2ea969c59ae0c35dc79da7563a089ea0bafeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 54/69] fix: deep copies of values do not share their flags
 with the original

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..82287da 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -136,7 +136,7 @@ Vells::Vells (const NumArray &that,int flags,int depth)
 Vells::Vells (const Vells &that,int flags,int depth)
 : NumArray(that,flags,depth,TpMeqVells)
 {
-  dataflags_.copy(that.dataflags_);
+  dataflags_.copy(that.dataflags_,flags,depth);
 }
 
 //##ModelId=3F868870023B
-- 
2.43.0


From abe2754715b60ec96b56c7938f4e6ea17e4eb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 55/69] fix: a node's failed children are counted as failures,
 not as missing, when its result is made

---
 MEQ/src/Function.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..a08ed80 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -197,7 +197,8 @@ int Function::getResult (Result::Ref &resref,
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
     // data as well.
-    if( nmissing )
+    // (a failed child also has no value, but then this VellSet is a fail and not missing data)
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 70584e02280586b2e14495bf65aa1241964f53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 56/69] fix: perturbed values are looked for only within the
 perturbation sets of each child

---
 MEQ/src/Function.cc            | 2 +-
 MEQ/src/TensorFunction.cc      | 2 +-
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 MeqNodes/src/MatrixMultiply.cc | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index a08ed80..0ca2364 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -251,7 +251,7 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
diff --git a/MEQ/src/TensorFunction.cc b/MEQ/src/TensorFunction.cc
index 589e8d7..fe2e480 100644
--- a/MEQ/src/TensorFunction.cc
+++ b/MEQ/src/TensorFunction.cc
@@ -206,7 +206,7 @@ void TensorFunction::computeTensorResult (Result::Ref &resref,
         int inx = vs.isDefined(spids[ispid],index_vector_[ichild][ivs]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_vectors_[ipert][ichild][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 6ebeb11..046b82b 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -196,7 +196,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
             if( inx >= 0 )
             {
               changed[ivs] = true;
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                 pert_values[ipert][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..9138066 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -180,7 +180,7 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         int inx = vs.isDefined(spids[ispid],indices[ich]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_values[ipert][ich] = &pvv;
@@ -372,7 +372,7 @@ int MatrixMultiply::getResult (Result::Ref &resref,
                 int inx = vs.isDefined(spids[ispid],indices[ivs]);
                 if( inx >= 0 )
                 {
-                  for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+                  for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
                   {
                     const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                     pert_values[ipert][ivs] = &pvv;
-- 
2.43.0


From 7e92d5b2e6443752e397b5ac75a3b22581c630e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 57/69] fix: the composer counts an empty value that it
 repeats, and compares its counts with the number of output planes

---
 MeqNodes/src/Composer.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..3f168d8 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -172,11 +174,13 @@ int Composer::getResult (Result::Ref &resref,
     if( !pcells && chres.hasCells() )
       pcells = &( chres.cells() );
   }
-  if( nres )
+  // ires is now the number of planes in the output (in tensor mode, this may be
+  // different from the number of child vellsets)
+  if( ires )
   {
-    if( nfails == nres )
+    if( nfails == ires )
       return RES_FAIL;
-    if( nmissing == nres )
+    if( nmissing == ires )
       return RES_MISSING;
     // apply cells as needed
     if( pcells )
-- 
2.43.0


From 803c166aa77756e730ad04a12057be0f8c00a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 58/69] fix: the condition equation passes on the errors of
 failed children instead of dropping the equations

---
 MeqNodes/src/Condeq.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/Condeq.cc b/MeqNodes/src/Condeq.cc
index 77f48c4..8ff3261 100644
--- a/MeqNodes/src/Condeq.cc
+++ b/MeqNodes/src/Condeq.cc
@@ -127,6 +127,7 @@ int Condeq::getResult (Result::Ref &resref,
   // Create result object and attach to the ref that was passed in
   Result & result = resref <<= new Result(out_dims);
   int nplanes = result.numVellSets(); // total number of output elements
+  int nfails = 0;                     // number of failed output elements
   
   vector<const VellSet*> child_vs(2);
   // check the weight result
@@ -140,14 +141,24 @@ int Condeq::getResult (Result::Ref &resref,
     vector<const Vells*> values(2);
     int npertsets;
     bool missing_data = false;
+    VellSet *fail_vs = 0;
     for( int i=0; i<2; i++ )
     {
       const Result &chres = *child_result[i];
       const VellSet &vs = chres.vellSet(chres.tensorRank()>0 ? iplane : 0);
+      // collect fails from child vellset
+      if( vs.isFail() )
+      {
+        if( !fail_vs )
+          fail_vs = &( result.setNewVellSet(iplane) );
+        for( int j=0; j<vs.numFails(); j++ )
+          fail_vs->addFail(vs.getFail(j));
+        continue;
+      }
       if( !vs.hasValue() )
       {
         missing_data = true;
-        break;
+        continue;
       }
       child_vs[i] = &vs;
       // merge in flags, if any
@@ -158,6 +169,12 @@ int Condeq::getResult (Result::Ref &resref,
           flagref.attach(vs.dataFlags());
       values[i] = &( vs.getValue() );
     }
+    // fail on any child produces fail output
+    if( fail_vs )
+    {
+      nfails++;
+      continue;
+    }
     // null vellset on any child produces null output
     if( missing_data )
     {
@@ -236,7 +253,7 @@ int Condeq::getResult (Result::Ref &resref,
       vellset.setDataWeights(weight_vells);
   }
   // no dependencies introduced
-  return 0;
+  return nfails == nplanes ? RES_FAIL : 0;
 }
 
 
-- 
2.43.0


From 006e7fa6296b271a5fc66d20e9f150c6ec7a1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 59/69] fix: PrivateFunction does not use the value of a
 missing child

---
 MeqNodes/src/PrivateFunction.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MeqNodes/src/PrivateFunction.cc b/MeqNodes/src/PrivateFunction.cc
index f927235..abdd8da 100644
--- a/MeqNodes/src/PrivateFunction.cc
+++ b/MeqNodes/src/PrivateFunction.cc
@@ -121,6 +121,7 @@ Vells PrivateFunction::evaluate (const Request& request, const LoShape& ,
   std::vector<Vells::Ref>  out_args(Npar);
   for(uint i=0;i<values.size();i++)
     {
+      FailWhen(!values[i],"missing data for a function argument");
       if(values[i]->isComplex()) isComplex++;
       out_args[i]<<=values[i];
     }
-- 
2.43.0


From 51920c2a9d95b45b0d07da83e7c9463691114f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 60/69] fix: the visibility mux skips tiles with a data id of
 exactly the handler table's size

---
 MeqServer/src/VisDataMux.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index e4a51e4..4e5f201 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -348,7 +348,7 @@ int Meq::VisDataMux::deliverTile (VisCube::VTile::Ref &tileref)
   num_chunks_++;
   // get handler for this tile
   int did = formDataId(tileref->antenna1(),tileref->antenna2());
-  if( did > int(handlers_.size()) )
+  if( did < 0 || did >= int(handlers_.size()) )
   {
     cdebug(4)<<"no handlers for did "<<did<<", skipping tile "<<tileref->sdebug(DebugLevel-2)<<endl;
     return 0;
-- 
2.43.0


From 8649c5ed42b7cf9db1a576f23356e1820d50a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 61/69] fix: a visibility tile without valid rows is rejected
 before reading past its end

---
 MeqServer/src/VisDataMux.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 4e5f201..ff6f2cb 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -583,9 +583,9 @@ void Meq::VisDataMux::fillCells (Cells &cells,LoRange &range,const VisCube::VTil
 {
   // find first valid row, error if none
   int i0,i1;
-  for( i0=0; tile.time(i0) == 0; i0++ )
-    if( i0 >= tile.nrow() )
-    { Throw("tile does not contain any valid rows"); }
+  for( i0=0; i0 < tile.nrow() && tile.time(i0) == 0; i0++ );
+  if( i0 >= tile.nrow() )
+  { Throw("tile does not contain any valid rows"); }
   cdebug1(5)<<"valid row range: "<<i0<<":"<<i1<<endl;
   // find last valid row (error condition above ensures that at least one exists)
   for( i1=tile.nrow()-1; tile.time(i1)==0 ; i1-- );
-- 
2.43.0


From f455bebef0dcb658af647a5a3ff2df14f3a24010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:00 +0000
Subject: [PATCH 62/69] fix: a header with fewer stations no longer drops
 handlers of higher data ids

---
 MeqServer/src/VisDataMux.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index ff6f2cb..9d5595e 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -270,10 +270,14 @@ int Meq::VisDataMux::deliverHeader (const DMI::Record &header)
   RqId::setSubId(next_rqid_,symdeps().getMask(FDomain),0);
   current_seqnr_ = -1;
   int maxdid = formDataId(nstations-1,nstations-1) + 1;
-  have_tile_.assign(maxdid,false);
   // forest().resetForNewDataSet();
-  handlers_.resize(maxdid);
-  child_indices_.resize(maxdid);
+  // make room for all data ids of this dataset, but never drop the handlers
+  // already attached to higher ones
+  if( maxdid > int(handlers_.size()) )
+    handlers_.resize(maxdid);
+  if( maxdid > int(child_indices_.size()) )
+    child_indices_.resize(maxdid);
+  have_tile_.assign(handlers_.size(),false);
   // get sizes and steppings
   total_timeslots_ = header[FNumTimeslots].as<int>();
   total_channels_ = header[FNumChannels].as<int>();
@@ -500,7 +504,7 @@ int Meq::VisDataMux::endSnippet ()
   for( int i=0; i<numChildren(); i++ )
     children().disableChild(i);
   // now, enable sinks with associated tiles
-  for( uint i=0; i<child_indices_.size(); i++ )
+  for( uint i=0; i<child_indices_.size() && i<have_tile_.size(); i++ )
     if( have_tile_[i] )
     {
       const IndexSet & ilist = child_indices_[i];
-- 
2.43.0


From bc5eb5b0650661b4e605a9e90514ae6f16719d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:00 +0000
Subject: [PATCH 63/69] fix: errors of the last tile are reported when the tile
 limit is reached

---
 MeqServer/src/VisDataMux.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MeqServer/src/VisDataMux.cc b/MeqServer/src/VisDataMux.cc
index 9d5595e..35209a7 100644
--- a/MeqServer/src/VisDataMux.cc
+++ b/MeqServer/src/VisDataMux.cc
@@ -370,7 +370,12 @@ int Meq::VisDataMux::deliverTile (VisCube::VTile::Ref &tileref)
     }
     num_tiles_++;
     if( max_tiles_ >= 0 && num_tiles_ > max_tiles_ )
-      return 0;
+    {
+      // this is the last we do, so do not lose the errors of the last tile
+      if( !errors.empty() )
+        throw errors;
+      return result_flag;
+    }
     current_seqnr_ = seqnr;
     // notify start of new snippet
     try { result_flag |= startSnippet(*tileref); }
-- 
2.43.0


From 4a64fd6da0452aee478f3c365da0028c3e3fae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 64/69] fix: a slice of a numeric array may not end beyond its
 axis

---
 DMI/src/NumArray.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index bbc58f0..bdc6fbd 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -794,6 +794,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
         {
           keepAxes[nraxes] = true;
 	        end[nraxes] = id[i].id() + 1;
+	        AssertMsg (end[nraxes] <= itsShape[nraxes], "End " << end[nraxes]-1
+		           << " should be < axis length " << itsShape[nraxes]
+		           << " in HIID " << id.toString());
 	        AssertMsg (end[nraxes] > st[nraxes], "End " << end[nraxes]-1
 		           << " should be >= start " << st[nraxes]
 		           << " in HIID " << id.toString());
-- 
2.43.0


From a4d268f79ef631c5526e33258c234996880aa3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 65/69] fix: a slice of an empty array is refused instead of
 using an axis it does not have

---
 DMI/src/NumArray.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index bdc6fbd..6784009 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -729,6 +729,7 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
 {
   int ndim = itsShape.nelements();
   int nid = id.length();
+  AssertMsg (ndim > 0, "HIID " << id.toString() << " refers to an empty array");
   // An axis can be removed if a single index is given for it.
   keepAxes.resize(ndim);
   keepAxes.assign(ndim,false);
-- 
2.43.0


From 35d5574f413cfb6aebcabfb4be48337b3c7cd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 66/69] fix: access to a record field by number starts at the
 first field instead of an unset position

---
 DMI/src/Record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 7f6c1db..4d72e33 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -337,7 +337,7 @@ int DMI::Record::get (const HIID &id,ContentInfo &info,
   FailWhen(!id.size(),"null field id");
   bool writing = flags&DMI::WRITE;
   Assert1(nonconst || !writing);
-  CFMI iter;
+  CFMI iter = fields.begin();
   // "AidHash" followed by a single numeric index is field #
   if( id.size() == 2 && id[0] == AidHash && id[1].index() >= 0 )
   {
-- 
2.43.0


From 38e6a2d6200ce89d4a5b0cbc01cc0339d50e77b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 67/69] fix: reading a list at its end position is refused

---
 DMI/src/List.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..c2d6c55 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -72,12 +72,9 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   else 
   {
     ItemList::const_iterator iter = items.begin();
-    while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+    while( n>0 && iter != items.end() )
+      --n,++iter;
+    FailWhen(n || iter == items.end(),"index out of range"); 
     return iter;
   }
 }
-- 
2.43.0


From 555922077d42c99b0208d9ba51f3d054f2657bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 68/69] fix: reading a list at -1 gives its last item instead
 of the end

---
 DMI/src/List.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index c2d6c55..f83500b 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -63,7 +63,6 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   if( n<0 )
   {
     ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
     while( n<0 && riter != items.rend() )
       ++n,++riter;
     FailWhen(n,"index out of range"); 
-- 
2.43.0


From 7cdd67f3b3b62e5c8e3c6c59bc3447a2834a08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:52 +0000
Subject: [PATCH 69/69] fix: clearing a record holds its lock

---
 DMI/src/Record.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 4d72e33..44c9589 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -58,6 +58,7 @@ DMI::Record::~Record()
 
 void DMI::Record::clear ()
 {
+  Thread::Mutex::Lock _nclock(mutex());
   dprintf(2)("clear()\n");
   fields.clear();
 }
-- 
2.43.0

