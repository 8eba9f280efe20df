P = [dict(id="P14", title="Data containers: bounds, protection and locks hold on every access",
 statement="Access to the shared data containers (records, lists, vectors, numeric arrays) by field or index never reaches outside the content: an element just past the end is reported as absent or refused, and anything further, before the beginning, or of an unsuitable type is refused with an error. Writing through a read-only path, or replacing, changing or removing a protected or already existing field without permission, is refused and leaves the content as it was, and write access is given only to content that was made private first. Every operation on a container holds that container's lock while it uses the content.",
 over=["inputs", "schedules", "histories"], text="for every container content, every index, slice or field name, every type asked for, every chain of accesses and any number of threads",
 why="the tests use a few well-formed indices; a slice beyond an axis, a negative list position, a write that reaches a shared copy or an unlocked change needs a particular index, sharing history or interleaving and then corrupts memory or someone else's data silently",
 files=["DMI/src/Record.cc", "DMI/src/Record.h", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/Container.cc"],
 mech=[("Record::get, addField, removeField, merge, insert, remove", "DMI/src/Record.cc"), ("List::applyIndex, get, put, insert, remove", "DMI/src/List.cc"), ("Vec::get, insert, put, remove, checkIndex", "DMI/src/Vec.cc"), ("NumArray::get, parseHIID", "DMI/src/NumArray.cc"), ("Container::Hook", "DMI/src/Container.cc")],
 technique="static analysis: decision tables over the conditions on each path (index against size, position against end, protection, permission, type), iterator typestate, must-hold lock analysis per member function",
 note="the reference counting and copying of the objects in a container is P13, their serialised form P03; the values computed by a strided slice and conversions between numeric types are not checked",
 design="""Every member function of the four containers and of the chained accessor is walked along all its paths with the truth of the recognised conditions: index below / not above / equal to the size, non-negative, position equal to the end,
field protected, replacing allowed, reference writable, type the same or convertible. Where an element is used (a subscript, data plus index times size, an iterator dereference, an offset computed from
positions) the conditions known on that path must put it within the content; for numeric arrays each position taken from an index needs its own comparison with its own axis before the next axis or the end of the function is reached,
and loops that check all axes must start at the first and check in every pass. A position that is returned, or used for replacing, must be known not to be the end. Handing out a pointer for writing needs the
permission and the copy made (or the dereference for writing) on that path; replacing, changing and removing need the protection known to be off. The accessor may index only into what is known to be a valid container,
takes a container reached through a shared reference as read-only, and resolves to a writable container before it adds, removes or detaches. Locks: a member function that touches the content has taken a lock on its own mutex before,
or all its callers in the class have. Conditions may be written through boolean variables, copies of sizes, or in other order.""")]
