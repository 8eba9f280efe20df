P = [dict(id="P07", title="Visibility streaming: every tile reaches its handlers in its slice",
 statement="A data set is a header, tiles and a footer, accepted only in that order and each passed on once: the first tile of a new time slice makes the previous slice be evaluated and starts a new one with a request number of its own, every tile reaches all sources and sinks registered for its baseline and no others, and the footer comes after the last slice. At the end of a slice exactly the sinks that received a tile are evaluated and all of them are awaited; a source answers a request with the data queued for it or reports it missing, a sink writes only good results, only to correlations the tile has, and every tile it changed goes to the output once, preceded by the header. An error at any step is kept and makes the stream's result a failure with aborted channels, without keeping the remaining tiles and handlers from being served, and the opening of a stream is always followed by the announcement of its end; no data set makes the tables of baselines be accessed out of range.",
 over=["inputs", "histories"], text="for every sequence of headers, tiles and footers, every set of baselines, sources and sinks, and failures at any step",
 why="the tests do not stream a data set with missing baselines, changing numbers of stations, failing children or tiles out of order; a dropped tile or a result written under another slice shows only in the data",
 files=["MeqServer/src/VisDataMux.cc", "MeqServer/src/VisDataMux.h", "MeqServer/src/Sink.cc", "MeqServer/src/Spigot.cc"],
 mech=[("VisDataMux::deliverHeader, deliverTile, deliverFooter", "MeqServer/src/VisDataMux.cc"), ("VisDataMux::startSnippet, endSnippet", "MeqServer/src/VisDataMux.cc"), ("VisDataMux::pollChildren", "MeqServer/src/VisDataMux.cc"), ("Sink::getResult, deliverTile", "MeqServer/src/Sink.cc"), ("Spigot::getResult, deliverTile", "MeqServer/src/Spigot.cc")],
 technique="static analysis: decision tables over the conditions on each path through the stream's functions, index-within-size dataflow, typestate of error lists, slices, channels and queued results",
 note="the values that are copied between tile and result, the flags and the axes of the request's grid are not checked; channels are other properties",
 design="""The helpers of the mux are inlined into each entry point, so that a slice's end and start are seen inside the delivery of the tile that causes them. Along every path the truth
of the recognised conditions (same slice, slice open, tile limit, index below the table's size, kind of event, state of the stream, answer of a child) is collected, including through boolean
variables, and compared with what must hold where the function acts: evaluating, starting, marking, delivering, enabling a child, posting to the output, announcing, returning. Loops over handlers are
checked per pass: a pass without the delivery (or an exception of that very delivery) is reported. Recorded errors are a typestate: pending after a catch clause or a failed child, recorded after the list
was added to, and they must be thrown or handed to the result before the list dies. Subscripts of the per-baseline tables need a comparison with the table's size and with zero on the path (loop counters from zero excepted),
and the tables may only grow. The pipeline of sinks and sources is checked in the same way: request and tile known to match before use, correlation known in range before reading or writing, private copy before
writing, and the queue popped only on a known mismatch.""")]
