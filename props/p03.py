P = [dict(id="P03", title="Polling a node's children honours policies and accounts for every child",
 statement="When a node polls its children (serially, by worker threads, asynchronously or in the background), every enabled child is polled through the poll order and only enabled ones, each result is recorded for the child it belongs to and counted exactly once, its code joins the cumulative code, and results for a poll that is no longer active are ignored. A poll stops early exactly on an abort, or on a fail or missing-data result whose policy says abandon; at the end the ignore policies clear exactly their own bit, collected fails are returned unless ignored, and a raised abort flag is reported as an abort. State shared with worker threads is accessed only under the poll's lock, the polling thread is woken whenever its wait could end, a second poll is refused while one is in progress, an aborted poll is deactivated and its queued work withdrawn, and the node is marked busy again on every way out.",
 over=["schedules", "inputs", "histories"], text="for every number, order and enabled state of children, every combination of policies and child result codes, and every interleaving of worker threads with the polling thread",
 why="tests exercise default policies on tiny trees; the policy matrix, abandoned polls, late results and wakeups need specific combinations and interleavings",
 files=["MEQ/src/NodeNursery.cc", "MEQ/src/NodeNursery.h", "MEQ/src/Node.cc"],
 mech=[("syncPoll/startAsyncPoll/awaitChildResult/backgroundPoll", "MEQ/src/NodeNursery.cc"), ("mt_receive*Result, mt_waitForEndOfPoll, mt_abortPoll", "MEQ/src/NodeNursery.cc"), ("Node::pollChildren", "MEQ/src/Node.cc")],
 technique="static analysis: must-hold lockset, and path-sensitive dataflow that enumerates result-code/policy combinations against a decision table",
 note="policy decisions are decided for all combinations of result bits and policies on all paths; what a stale result of an abandoned poll may do to a later poll is not covered (see DESIGN)",
 design="""Rules P03-guard/wait (lockset), recv/notify (per-path counts in each work-order callback: counted once, code recorded, result
kept, broadcast whenever the wait predicate can become false), policy (on every path through the serial loop and the multithreaded
receiver the branch facts are turned into constraints over {ABORT,FAIL,MISSING} x fail policy x missing policy, and each remaining
combination must agree with the table 'stop iff abort, or the first of fail/missing has the abandon policy'), enabled/order (the index
executed or queued is one tested by the enabled predicate and taken from the poll order; loops cover 0..n-1), setup (poll state reset
before a worker can run), refuse, final, await, busy (idle/busy typestate incl. exception exits), steps (step children), accum, porder, abort.
Not covered: a result of an abandoned poll that arrives after the next poll of the same node has started is accepted by that poll
(work orders carry no poll number); this needs a redesign and is left out of the statement.""")]
