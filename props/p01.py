P = [dict(id="P01", title="A node executes exclusively and every execution ends cleanly",
 statement="At most one thread executes a node at a time; a second one waits (marked as blocked) until the first has ended, and every way out of an execution (result, cache hit, inactive node, wait, fail, missing data, abort, error) ends it exactly once, finishes or aborts the polls it started, wakes the waiters and leaves the node idle with a status matching the outcome. An execution looks up the cache, accepts a new request (with its id, and its rider exactly once), polls children only if active, evaluates only when no child asked to wait, failed or lacked data, and then caches; errors never escape but become a fail result with the fail bit in the code. A raised abort flag is noticed before polling, after polling and after evaluation: it stops the polls, caches nothing and is reported; a node stops at breakpoints with its state lock released and its status flags, breakpoint masks and single-shot breakpoints stay consistent.",
 over=["schedules", "inputs", "histories", "faults"], text="for every interleaving of executing threads, every result code of children, every place where an error is raised or an abort arrives, and every request history",
 why="tests run single executions that succeed; exits by error, abort or wait, re-entry by another thread and breakpoints are not exercised",
 files=["MEQ/src/Node.cc", "MEQ/src/Node.h"],
 mech=[("Node::execute, setExecState, setCurrentRequest, setBreakpoint/clearBreakpoint", "MEQ/src/Node.cc"), ("Node::exitExecute, exitAbort", "MEQ/src/Node.h")],
 technique="static analysis: must-hold lockset, exception-escape analysis, path-sensitive typestate over all ways out of the execution",
 note="what an individual stage computes is not covered here",
 design="""Rules: guard/wait (lockset on the executing mark), end (typestate over all exits incl. exceptional ones: mark set only where known clear,
cleared once, polls of both nurseries finished or aborted before, broadcast), escape (calls that may throw, by an interprocedural may-throw analysis,
lie inside the try region), fail (after a handler: new Result, fail added, code|FAIL), state (constant bits of the last status set agree with the
branch facts about the code), abort, order (stage sequence with branch facts required at each stage), newreq (three conjuncts implied when a request is taken as known;
request and id recorded together), break/bpflags.""")]
