P = [dict(id="P13", title="Counted references: copies are independent and objects die once",
 statement="Changing an object through one reference never changes what is seen through another reference that was not made shared: the object is first copied for whoever writes, and the copy is of the same class, complete, and shares no modifiable data with the original (a deep copy shares nothing at any depth). An object that its references own lives as long as one of them refers to it and is deleted exactly once, when the last one goes, whichever threads copy and drop references concurrently. A locked reference is not detached or transferred, and a copy of a read-only reference does not become writable by being copied.",
 over=["inputs", "histories", "schedules"], text="for every sequence of copying, transferring, detaching and writing through references, at every nesting of records, lists, vectors and arrays, in any number of threads",
 why="a copy that shares data with its original is only visible when the one is modified while the other is in use; tests rarely hold on to the original, and a count that drifts shows as a leak or a use after deletion much later",
 files=["DMI/src/CountedRefBase.h", "DMI/src/CountedRefBase.cc", "DMI/src/CountedRef.h", "DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.h", "DMI/src/NumArray.cc", "OCTOPUSSY/src/Message.cc", "MEQ/src/Vells.cc", "VisCube/src/ColumnarTableTile.h", "VisCube/src/ColumnarTableTile.cc", "VisCube/src/VTile.h"],
 mech=[("CountedRefBase::attach, copy, xfer, detach, privatize, cloneTarget", "DMI/src/CountedRefBase.cc"), ("CountedRefBase::getTargetWr, isDirectlyWritable", "DMI/src/CountedRefBase.h"), ("clone and cloneOther of the data classes", "DMI/src/Record.cc"), ("makeWritable of NumArray, Vec, ColumnarTableTile", "DMI/src/NumArray.h")],
 technique="static analysis: path-sensitive balance analysis of the reference count; decision tables for write access; override and argument checks of the clone functions; stale-access and cached-pointer dataflow over the whole program",
 note="C++ references kept in members across calls are not followed; that every field of a cloned object is equal to the original's is checked only for members that are references",
 design="""Each operation of the reference base class runs as an automaton over (does this reference hold a target, does the other one, balance of count changes against
references gained and lost, target lock held, count seen to reach zero, target owned). The balance must be zero at every exit, changes need the lock, and the deletion needs zero,
ownership and an emptied reference, and must happen when all three hold. The write-access predicates are compared with their specification over all values of their conditions.
Every class derived from the reference target must override a non-throwing clone with one that constructs its own class from the object with flags and depth; members that
are references must be copied with both. In every function of the program that obtains write access and copies the same reference, a write after the copy must re-evaluate the
access. For the classes that cache a pointer into a block held by reference, the pointer must be set again after every event that may move the reference to another block, and
data may be handed out or written through it only after the block was made private.""")]
