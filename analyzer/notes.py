"""manifest texts"""
TECH = {"*": "value-graph (gated SSA) normalisation of the compiler's MIR against specification terms",
 "C33": "effect and type queries over the resolved call graph and the trait solver's auto traits",
 "C32": "hash-order taint over the value graph, exchange argument on the consumers of hash iteration",
 "C37": "reachability of panic sites on the value graph, refuted by linear arithmetic over their path conditions",
 "C39": "value-graph (gated SSA) normalisation of each comparison and clone against structural equality of the type definitions",
 "C40": "loop variants over the natural loops of the MIR, acyclicity of the resolved call graph, level induction for worklists",
 "C91": "canonical bit functions (reduced ordered decision diagrams) of the value graph, compared with the Hilbert transducer",
 "C25": "induction over the packing loop's rounds on the value graph", "C26": "worklist induction over the traversal loop on the value graph",
 "C27": "worklist induction over the traversal loop on the value graph", "C28": "worklist induction over the traversal loop on the value graph",
}
NOTE = {"*": "Static: the MIR of the current tree is abstracted to a value graph (arithmetic over the reals with NaN/infinity comparisons kept, library calls by model, loops by summaries) and compared with the specification term. Trusts the MIR dumper, the models of core/alloc/std calls and the normaliser. What cannot be decided either way is counted as undecided in the evidence and does not alarm."}
NA = {
 "C90": "Convexity and minimality of the hull quantify over the geometry of unboundedly many positions; they rest on an inductive invariant of Melkman's algorithm over simple rings that no static argument in reach bounds (C34 decides the structural part).",
 "C92": "The topological truth of a vertex-parity classification for rings touching at arbitrarily many positions is false in general for the algorithm and, where true, a geometric theorem about runtime coordinates; no dataflow fact expresses it (C24 decides what the code computes).",
 "C93": "Rounding robustness needs bounds on floating-point error of runtime coordinates; plain predicates are not robust and no static argument makes them so.",
 "C94": "Average-case cost over distributions of runtime data is not a property of the source's shape.",
}
