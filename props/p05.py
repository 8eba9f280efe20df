P = [dict(id="P05", title="The forest's node registry stays consistent and lookups stay inside it",
 statement="A node is created only under a free index and a free name, and is then counted once, listed under that index and found by its name; a refused creation changes nothing but the error count, and a removed node gives up slot, count and name at once. No index, whether given by a caller or recorded, reaches a slot outside the table, index 0 is never a node, unknown indices and names are refused, and a node list has exactly one entry per existing node with all its columns in step. Initialization reaches every node even if some fail, a refused forest state is undone, a stopped node waits until the stop flag is cleared, and children and parents are linked to the slots their records name after their numbers were checked.",
 over=["inputs", "histories"], text="for every history of creations (by name, by recorded index, duplicated, of unknown class), removals, lookups, clears and state changes",
 why="tests create a handful of nodes in order and never remove or reload one; duplicate indices, holes and stale names need particular histories",
 files=["MEQ/src/Forest.cc", "MEQ/src/Node_init.cc", "MEQ/src/NodeNursery.cc"],
 mech=[("Forest::create, remove, get, findNode, valid, getNodeList, initAll, setState, clear", "MEQ/src/Forest.cc"), ("Forest::processBreakpoint, waitOnStopFlag, clearStopFlag", "MEQ/src/Forest.cc"), ("Node::attachInitRecord, setupNurseries, init", "MEQ/src/Node_init.cc")],
 technique="static analysis: path-sensitive typestate of registry updates, bounds facts at every table access",
 note="nodes are assumed to be created and removed by one thread with no execution in progress",
 design="""Rules: bounds (every access of the node table in Forest.cc dominated on every feasible path by facts that bound the index, the name map being trusted),
create/remove (automaton over slot writes, count changes, name entries, vacancy and freedom known before; the outcome vector at every exit is checked),
lookup, list (position checked and advanced exactly once per valid slot), init (both sweeps, handlers count, post and stay in the loop), state, stop (lockset,
re-tested waits), links.""")]
