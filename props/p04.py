P = [dict(id="P04", title="Worker pool runs every queued evaluation exactly once",
 statement="In multithreaded evaluation every work order placed in the worker pool is handed to exactly one thread, executed once outside the pool's lock, and then taken off the running count of its tree depth once and destroyed; orders withdrawn by a client are removed and destroyed without touching other clients' orders. All pool bookkeeping (order queue, worker states, idle and running counts, worker table) is accessed only under the pool lock and stays mutually consistent, and depth counters are always large enough for the depth used. Whenever orders are queued and their depth is not saturated some worker is woken or started, and sleeping workers re-check the queue under the lock when woken.",
 over=["schedules", "histories"], text="for every interleaving of polling threads and workers, every tree depth and every sequence of queueing, withdrawing and finishing orders",
 why="the tests run a handful of small trees, mostly single-threaded; lost wakeups, double accounting and unlocked accesses need particular interleavings and long histories",
 files=["MEQ/src/MTPool.cc", "MEQ/src/MTPool.h", "MEQ/src/NodeNursery.cc"],
 mech=[("Brigade::getWorkOrder/awakenWorker/finishWithWorkOrder/placeWorkOrder/clearQueue", "MEQ/src/MTPool.cc, MTPool.h"), ("work order consumers", "MEQ/src/NodeNursery.cc syncPoll/awaitChildResult/mt_waitForEndOfPoll")],
 technique="static analysis: interprocedural must-hold lockset plus path-sensitive counting dataflow over inlined control-flow graphs",
 note="decides lock discipline, wait/wakeup structure and per-path accounting for all interleavings at the granularity of the pool lock; does not bound latency or fairness")]
