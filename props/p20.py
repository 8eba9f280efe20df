P = [dict(id="P20", title="No lock-order deadlock, and the locking primitives keep their contracts",
 statement="No two mutexes of the system are ever acquired in opposite orders by different call paths, every wait on a condition holds that condition's mutex and no other and re-tests what it waits for, and every hand-made lock is undone on every way out. Scoped locks, reader locks and writer locks hold exactly the locks they believe they hold through every operation (lock, relock, copy, assign, release, try, destroy), mutexes are recursive, and a timed wait's deadline is a valid time. A reader/writer lock admits a writer only alone and a reader only without a foreign writer, and wakes every waiter that may enter when someone leaves.",
 over=["schedules", "histories"], text="for every interleaving of the threads and every call path between the subsystems",
 why="a deadlock needs two threads in the right two places at the same moment; the tests run the server mostly single-threaded",
 files=["TimBase/src/Thread/Mutex.h", "TimBase/src/Thread/Condition.h", "TimBase/src/Thread/SmartLock.h", "TimBase/src/Thread/SmartLock.cc", "TimBase/src/Thread/Thread.cc", "MEQ/src/Node.cc", "MEQ/src/MTPool.cc", "OCTOPUSSY/src/Dispatcher.cc", "OCTOPUSSY/src/WPInterface.cc", "OCTOPUSSY/src/MTGatewayWP.cc", "AppAgent/AppAgent/src/MTQueueChannel.cc", "MeqServer/src/MeqServer.cc"],
 mech=[("Mutex, Mutex::Lock", "TimBase/src/Thread/Mutex.h"), ("Condition", "TimBase/src/Thread/Condition.h"), ("SmartLock", "TimBase/src/Thread/SmartLock.cc"), ("every function that locks", "OCTOPUSSY/src, MEQ/src, MeqServer/src, AppAgent/AppAgent/src, OCTOPython/src, DMI/src")],
 technique="static analysis: whole-program lock-order graph from must-hold locksets and transitive may-acquire sets; typestate of the lock primitives",
 note="lock identity is the class member, so orders between two objects of one class are not distinguished; two lock pairs are excluded after review (see the check's notes); three genuine inversions are recorded as known findings",
 design="""Order: for each function the must-hold lockset at every program point (P04's engine) and the set of mutexes any callee may acquire (virtual calls
expanded over the class hierarchy; debug printing and object-copy hooks cut) give the edges of the acquisition graph; every 2-cycle and every shortest longer cycle is
reported with both call chains. Waits: lockset at each Condition::wait plus a loop re-test. Guards: each operation of Mutex::Lock, SmartLock::Read and SmartLock::Write is
run as an automaton (does this guard hold a lock, does the other one) and at every exit locks minus unlocks must equal the change of the guard's belief. Reader/writer lock:
interval abstraction of the two counters along every path.""")]
