P = [dict(id="P11", title="What an object writes into blocks is exactly what its reader expects",
 statement="Every object that converts itself to blocks returns, and records in its header block, exactly the number of blocks it produced, nested objects included; a packed part takes from the room it was given exactly the number of bytes it reports. Every header field and per-element entry that decoding reads has been written by encoding (or the block was created zeroed), and a value that decoding restores into part of the object was written from that same part. Variable-length parts are decoded in the order in which they were encoded, each with the size recorded for it.",
 over=["inputs"], text="for every object of every serializable type, with any nesting, number of elements and empty or missing parts",
 why="round-trip tests use a few full objects; wrong counts or unwritten entries show only for particular mixes of empty, cached and nested parts, and unwritten memory often happens to be zero in a test",
 files=["DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/HIID.cc", "DMI/src/Packer.h", "OCTOPUSSY/src/Message.cc", "OCTOPUSSY/src/Subscriptions.cc", "OCTOPUSSY/src/LatencyVector.cc", "VisCube/src/TableFormat.cc", "VisCube/src/ColumnarTableTile.cc"],
 mech=[("toBlock of Record, List, Vec, NumArray, Message, TableFormat, ColumnarTableTile and its fromBlock", "DMI/src/Record.cc"), ("pack and unpack of HIID, Subscriptions, LatencyVector and the packer templates", "DMI/src/Packer.h")],
 technique="static analysis: symbolic linear accounting of counts along all paths of the writers, and cross-comparison of the writer's and the reader's accesses to the header",
 note="the bytes of numeric payloads are not compared; writers outside the core libraries are not analysed",
 design="""Accounting: for each toBlock (pack) the quantity Q of blocks pushed (bytes taken from the room) is a formal symbol; every local variable the returned value depends on is
kept as a linear expression, both without Q and relative to Q, over the results of the nested conversions. Pushing re-expresses every variable, so a correct accumulator returns to `Q` at
the end of each pass of a loop and the state space is finite. At each return, and for the argument of the header-filling call, a difference consisting only of constants and nested
results is a violation; anything else is undecided and silent. Headers: the set of header fields is what the reader loads through pointers into the block (the taint analysis of P12);
each must be assigned on every path of the writer (and of other makers of such a block in the class) after the block is created, unless it is created zeroed; fields written only
inside loops must be written in every pass. Pairing: a field restored into a member must be written from an expression over that member. Order: the sequences of distinct
parts passed to pack and unpack along the paths are compared, with the size field used for each part and the step of the reading position.""")]
