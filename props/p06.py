P = [dict(id="P06", title="Server commands: executed once, answered once, in order, state restored",
 statement="Every command given to the server is either executed, queued or refused with an error; a queued command is executed exactly once, in order of arrival, by the one execution thread, and one that is not silent, or fails, is answered exactly once, with an error if it failed; nothing a command throws or contains stops the server. Commands that create or delete nodes, clear the forest or execute it never run beside one another; each change of the set of nodes gives the forest a new serial number, and a node list never carries a serial number newer than its contents. Whatever a command does, the announced state, the executing mark and the stop flag are put right afterwards, breakpoints set by the user survive stepping, and halting wakes every waiting thread and ends the execution thread before the forest is cleared.",
 over=["histories", "schedules", "inputs"], text="for every sequence of commands from any thread, every combination of silent, serial and posted modes, and every exception a command may throw",
 why="answers are lost or doubled, flags left set and serial numbers stale only for particular combinations of mode, failure and timing of the control and execution threads; no test runs the server's command loop",
 files=["MeqServer/src/MeqServer.cc", "MeqServer/src/MeqServer.h"],
 mech=[("executeCommand, execCommandEntry, execNodeCommand, runExecutionThread, run, halt, nodeExecute, debug*, *ForestBreakpoint, getNodeList", "MeqServer/src/MeqServer.cc")],
 technique="static analysis: typestate automata with constant propagation over every mode of the command functions, call-graph effects of the registered handlers, locksets",
 note="what a command does to nodes is the subject of P01-P05; commands compiled only with MPI support are not in this build and are not analysed",
 design="""The command functions are explored over all paths once for each combination of their mode flags (save state, post results, silent, node command's answer):
a small abstract machine keeps the values of the flags and of the locals fed by them, so that correlated tests are followed exactly, and the automaton counts executions,
answers, error marks, state restoration and the lock/clear/post order of the stop flag, exceptions included. The execution loop is a typestate (head taken, executed,
removed, emptied queue announced). Registered handlers are read from the constructor and their effects (node creation, removal, execution) found through the class's call graph.""")]
