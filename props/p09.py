P = [dict(id="P09", title="A message is delivered to exactly those it is addressed or published to",
 statement="A message reaches the one process it is addressed to, or every attached process whose address matches its broadcast address, or, when published, every process with a subscription matching both its identifier and its sender - each of them once, and nobody else. A connected gateway carries a message to the other side exactly if it has not been forwarded before (server announcements: at most three times, not back to where they came from), its destination includes the remote side, and a remote process is addressed or has subscribed; what arrives from the other side has its hop counted and its forwarder recorded and is sent on once, and a remote process's subscriptions are replaced only after they were read successfully. Whatever is sent or published carries the sender's address and state and a hop count of zero, is confined to the scope asked for, and a change of a started process's subscriptions is published.",
 over=["inputs", "histories"], text="for every message identifier, sender, destination, scope, set of attached processes, subscriptions and gateways",
 why="tests exchange a few messages between two processes; wildcards, partial addresses, several gateways and forwarded announcements combine into many cases, and a mistake shows as a lost, doubled or circulating message",
 files=["OCTOPUSSY/src/Dispatcher.cc", "OCTOPUSSY/src/MTGatewayWP.cc", "OCTOPUSSY/src/Subscriptions.cc", "OCTOPUSSY/src/WPInterface.cc", "DMI/src/HIID.cc", "DMI/src/AtomicID.h"],
 mech=[("Dispatcher::send", "OCTOPUSSY/src/Dispatcher.cc"), ("MTGatewayWP::willForward, receive, processIncoming", "OCTOPUSSY/src/MTGatewayWP.cc"), ("Subscriptions::matches, HIID::matches, AtomicID::matches", "DMI/src/HIID.cc"), ("WPInterface::send, publish, subscribe, unsubscribe, do_start", "OCTOPUSSY/src/WPInterface.cc")],
 technique="static analysis: decision tables (the truth of every recognised condition is collected along each path and compared with the routing contract wherever the function delivers, returns or moves to the next entry)",
 note="that bytes survive the socket, and how fast messages travel, is not part of this property",
 design="""Each routing function is run as an automaton whose state is the set of its conditions decided so far on the path, recognised by what they are about (the host part of the
destination against ours, a wildcard in the class, an entry's subscriptions against the message ...) in whatever form they are written; whole conjunctions, named conditions and
flags are evaluated in three-valued logic. At each delivery the contract must be known to hold, wherever an entry is passed over or the function returns it must be known
not to hold: Dispatcher::send (direct, broadcast, published, gateways; each queue once; the returned counter), willForward, receive, the three matches() functions, the
sending side (hop count, sender and state stamped; scope to host and process of the destination; 'local' replaced), processIncoming (hop and forwarder before sending on,
once; routing table updated only after a successful unpack and reduced only on a farewell), subscribe/unsubscribe/do_start (publication).""")]
