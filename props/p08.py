P = [dict(id="P08", title="Message queues: order, exactly-once disposal, and no lost wake-ups",
 statement="Messages queued at a process stay in order of priority, and of arrival within a priority (a held message goes back ahead of its equals); each is put in exactly once, handed to one handler at a time with the queue unlocked, and then removed if accepted, kept at the head if held, or put back once by its priority if requeued. Whatever becomes the new head of a queue is announced (poll request, signal, and a wake-up of the dispatcher from other threads), nobody goes to sleep without having tested under the lock that there is nothing to do, and stopping wakes every sleeper. The queues, the process table and the timeout, input and signal lists are only touched under their locks, never read when empty, and detaching a process removes all its entries and no others.",
 over=["schedules", "histories", "inputs"], text="for every sequence of messages and priorities, every handler result and every interleaving of senders, workers and the dispatcher thread",
 why="a lost wake-up or a message dropped on one insertion path shows only for particular queue contents and particular thread timing; no unit test queues messages at all",
 files=["OCTOPUSSY/src/WPInterface.cc", "OCTOPUSSY/src/Dispatcher.cc", "OCTOPUSSY/src/Dispatcher.h", "OCTOPUSSY/src/WPInterface.h", "OCTOPython/src/ProxyWPObject.cc", "AppAgent/AppAgent/src/OctoEventMux.cc"],
 mech=[("WPInterface::enqueue, enqueueFront, deliver, do_poll, dequeue, searchQueue, do_stop", "OCTOPUSSY/src/WPInterface.cc"), ("Dispatcher::enqueue, poll, pollLoop, attach, detach, checkEvents, stopPolling", "OCTOPUSSY/src/Dispatcher.cc"), ("PyProxyWP_receive*", "OCTOPython/src/ProxyWPObject.cc")],
 technique="static analysis: typestate automata over all paths of the queue operations (position, priority comparison and emptiness knowledge), locksets",
 note="the event thread's select() can miss a signal sent just before it, which only delays a timeout and is not claimed; start and stop run single-threaded by assumption",
 design="""Insertion: every function that puts something into the queue is run as an automaton over (number of insertions, queue known empty/non-empty, known
comparison of the new priority with head, tail and the entry under the iterator, iterator still at the head, sign of local counters); each insertion must be licensed by
that knowledge, contradictory paths (e.g. an iterator at the head whose entry was already found to be of higher priority) are pruned, and at exit there must be exactly
one insertion and, when it became the head, flag, signal and non-negative result. Disposal: the set of possible handler results is tracked through assignments and
comparisons to each exit and compared with what was removed and put back. Locksets give the guards; test-before-sleep is a typestate over lock acquisition, branch, wait.""")]
