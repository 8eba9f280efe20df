P = [dict(id="P12", title="Malformed serialized data is refused, never read past or trusted",
 statement="Whatever bytes a received set of blocks holds, decoding it either yields an object or is refused with an exception: nothing is read beyond the end of a block, no length, count or extent found in the data is used before it was checked against the size of the block (and for sign), and no more blocks are taken than the set has. An object is accepted only if the number of blocks it took equals the number its header announces. An object of a type that has no registered constructor is refused.",
 over=["inputs"], text="for every content and size of the blocks handed to a decoder, and every nesting of records, lists, vectors, arrays, messages, tiles and tables",
 why="tests decode what the same build has encoded; a missing check shows only for truncated or hostile bytes, from a peer, a file or a cache, and then as silent over-read rather than a failure",
 files=["DMI/src/NumArray.cc", "DMI/src/Vec.cc", "DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Packer.h", "DMI/src/HIID.cc", "DMI/src/BlockSet.h", "DMI/src/BlockSet.cc", "DMI/src/DynamicTypeManager.cc", "OCTOPUSSY/src/Message.cc", "OCTOPUSSY/src/Subscriptions.cc", "OCTOPUSSY/src/LatencyVector.cc", "VisCube/src/ColumnarTableTile.cc", "VisCube/src/TableFormat.cc"],
 mech=[("fromBlock of Record, List, Vec, NumArray, Message, ColumnarTableTile, TableFormat", "DMI/src/Record.cc"), ("SeqPacker, ArrayPacker, MapPacker, BinPacker ::unpack", "DMI/src/Packer.h"), ("BlockSet::pop, popMove", "DMI/src/BlockSet.h"), ("DynamicTypeManager::construct", "DMI/src/DynamicTypeManager.cc")],
 technique="static analysis: path-sensitive taint analysis of the decoders (which terms of the data a size comparison covers, signs, block counts)",
 note="that the decoded values equal the encoded ones is not part of this property; object types outside the core libraries are not analysed",
 design="""Every function called fromBlock, unpack or allocate that receives a block is run as an automaton. A pre-pass finds the variables that point into the block and those
whose value was read from it; the state holds the number of bytes the size is known to reach (constant part of the comparisons passed), the set of variables covered by a
comparison with the size (accumulating variables expand to what was added into them), the set known not to be negative, the set bounded by other comparisons, the
difference between blocks taken and counted. A load at a fixed offset needs the constant to reach past the member (record layouts come from the compiler); a load in the
variable part needs the loop's bound covered; a length passed on with a pointer must be covered and, if of a signed type, not negative; products formed in loops need a
prior bound; at exit the announced number of blocks must have been compared for equality with the counted one.""")]
