P = [dict(id="P02", title="A cached result is reused only where it is valid, and kept as the policy says",
 statement="A node answers a request from its cache only if the cache is valid, neither request id is empty and the ids agree in every component the cached result depends on (state dependency included), except that an update request may be answered emptily without iteration dependence and a plain request by a perturbed result stripped of derivatives; any other request drops the cache, and ids of different length are compared as if padded with zeros. What is cached, and for how long, follows the policy: fails and 'always' are kept, 'never' keeps nothing, 'minimal' keeps only for several parents, 'smart' also keeps what the next request does not invalidate; children are told to hold exactly what their parent does not keep and the next request does not invalidate, and a cache is released only when all parents have checked in and none (in smart mode) asked to hold it. Clearing caches marks them invalid, lowers the cached status and, if recursive, reaches children and step children; a change of a node's state makes all its ancestors' results depend on state; and the cache is touched only under the node's execution lock.",
 over=["inputs", "histories", "schedules"], text="for every sequence of requests, ids of any length, result codes, policies, numbers of parents and orders of hints",
 why="tests use one or two requests with the default policy; stale reuse shows only for particular histories",
 files=["MEQ/src/Node.cc", "MEQ/src/Node.h", "MEQ/src/RequestId.cc"],
 mech=[("Node::getCachedResult, cacheResult, holdCache, holdChildCaches, clearCache, propagateStateDependency", "MEQ/src/Node.cc"), ("Node::Cache", "MEQ/src/Node.h"), ("RqId::diffMask", "MEQ/src/RequestId.cc")],
 technique="static analysis: path-sensitive decision-table extraction compared with the policy table, must-hold lockset",
 note="whether individual node classes declare the right dependencies is not covered",
 design="""Rules: guard (lockset on the cache), hit (branch facts at every return of the lookup imply the conditions for reuse), policy (the decision table of
cacheResult, extracted by forking every disjunction, equals the table for all combinations of fail, policy band, several parents, invalidated-by-next), store,
hold (decision table of the release), hints (hint = hold && !(child's code & mask), after both polls finished, for every enabled child), clear, state,
diff (product of the loop with the two end tests: the comparison ends only with both ids exhausted or out of bits).""")]
