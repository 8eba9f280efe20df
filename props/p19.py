P = [dict(id="P19", title="Failed and missing input: function nodes neither lose errors nor invent data",
 statement="In every output plane of a function node, a failed child value makes the plane a failure that carries the child's errors, an exception during evaluation makes it a failure, and a missing child value makes it missing unless the node does without missing input and at least one value is there; nothing is computed from a failed or missing value, and perturbed values are read only from perturbation sets that the child has. The node's result is reported as failed exactly if every plane failed, and as missing exactly if every plane is missing; nodes that pass child values on report both the same way. The flags of every child value that is used go into the output's flags under the mask set for that child.",
 over=["inputs"], text="for every combination of failed, missing, flagged and perturbed child planes, scalar or tensor, in any number of children",
 why="the tests evaluate good data; a mixture of failed and missing planes, or children with different numbers of perturbation sets, appears only in large trees, where a lost error looks like valid data",
 files=["MEQ/src/Function.cc", "MEQ/src/TensorFunction.cc", "MEQ/src/VellSet.h", "MeqNodes/src/Composer.cc", "MeqNodes/src/Selector.cc", "MeqNodes/src/Condeq.cc", "MeqNodes/src/MatrixMultiply.cc", "MeqNodes/src/MatrixInvert22.cc", "MeqNodes/src/Add.cc", "MeqNodes/src/Multiply.cc", "MeqNodes/src/Mean.cc", "MeqNodes/src/Max.cc", "MeqNodes/src/Min.cc", "MeqNodes/src/PrivateFunction.cc"],
 mech=[("Function::getResult, evaluateFlags", "MEQ/src/Function.cc"), ("TensorFunction::computeTensorResult, evaluateTensorFlags", "MEQ/src/TensorFunction.cc"), ("Composer::getResult", "MeqNodes/src/Composer.cc"), ("Selector::getResult", "MeqNodes/src/Selector.cc"), ("Condeq::getResult", "MeqNodes/src/Condeq.cc"), ("evaluate() of the nodes that allow missing data", "MeqNodes/src/Add.cc")],
 technique="static analysis: product automaton over planes and children of the evaluation function with its counters; decision tables for nodes that pass values on; index-bound and null-ness dataflow over all node classes",
 note="what evaluate() computes from good values is not judged; nodes that override the whole evaluation are held to the rules on lost failures, perturbation sets and passed-on values only",
 design="""The evaluation function of function nodes runs as an automaton: per child (failed, has a value, errors added, value handed on, counted) and per plane (output failed, a value
missing, all missing, node does without, evaluated, exception caught, counted as failed, counted as missing), with the branch conditions on these tracked three-valued and
contradictions pruned. At the end of each child, of each plane and at each return the states are compared with the rules; the two counters are recognised by the comparison
that decides each return code, and the counter of missing values by what it is incremented for. Nodes that copy child values must look at each copy for failure and emptiness,
change different counters or flags for failed, missing and good, and return the codes on those. For every read of a perturbed value, the dataflow keeps the comparisons known
to hold for the set index. In the evaluate functions of classes that allow missing data, a child value may be used only where it was compared with null on the path, or where
it is the only one. Nodes with an evaluation of their own are walked over planes and children in the same way: a failed child's errors
are added and not overwritten, nothing is computed in a plane with a failed or missing value, flags are kept. The masks set in the state record are followed into the children's
masks. Known gaps: the number by which a counter grows, and what it is compared with, are not checked where a scalar is repeated over a tensor; the merging of the collected
flags is checked for being dropped altogether, not for every branch; exceptions not derived from the standard one are required to be caught only where a handler for them is there.""")]
