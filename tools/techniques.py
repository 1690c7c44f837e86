T = {
 "N01": ("exploration", "exhaustive enumeration of operator applications over a boundary alphabet (all tuples, all depth-2 chains) executed on the real code; oracle: Python integers and fractions"),
 "N02": ("exploration", "exhaustive enumeration of division and bit operations over boundary alphabets executed on the real code; oracle: their definitions over Python integers"),
 "N03": ("exploration", "exhaustive enumeration of numerals (every binade x mantissa patterns, every composition of literal parts, radices) and of mixed-exactness operand pairs executed on the real code; oracle: Python's exact and correctly rounded arithmetic"),
 "C01": ("model_checking", "explicit exploration of all control programs of four families up to a size (all extent nests x all jump sequences, all capture/re-entry expressions, all coroutine schedules) on a CEK reference machine, every program replayed on the implementation and compared by value and event trace"),
 "C02": ("model_checking", "explicit exploration of all programs over raise / raise-continuable / with-exception-handler / guard / dynamic-wind / parameterize / call/cc up to a size, and of every nest of three contexts around every raising primitive, on a CEK reference machine, every program replayed on the implementation and compared by value and event trace"),
 "C03": ("model_checking", "explicit exploration of all programs over parameters, promises, re-entry and errors up to a size on a CEK reference machine, every program replayed on the implementation and compared by value and event trace"),
 "E01": ("model_checking", "explicit exploration of all programs of seven sub-grammars (scope, closures, conditionals, multiple values, quasiquotation, top-level sequences, bodies) up to a size on a CEK reference machine, every program replayed on the implementation and compared by value and event trace"),
 "E02": ("model_checking", "exhaustive enumeration of tail-loop shapes x tail contexts (all single, all pairs, thorough all triples) executed on the real code for two iteration counts; invariant: live heap objects after a full collection do not depend on the count; every non-tail recursion context and pair checked for its result"),
 "G01": ("model_checking", "exhaustive exploration of collection schedules on the real collector: for every program of the corpus (every primitive, reader text, control program up to a size, R7RS form) a collection at every allocation point, and single collections at every point, under AddressSanitizer and under a freed-memory-overwriting allocator; invariant: the observation equals the run without collections"),
 "G02": ("model_checking", "explicit exploration of all operation sequences up to a depth on the collector's address set and allocator against set models, of all canonical model heaps up to a size with every transition replayed on the real collector under three collection schedules, and of every program of the corpus repeated; invariant: live objects do not grow"),
 "M02": ("model_checking", "exhaustive enumeration of all syntax-rules patterns up to a size x templates x all instances and single edits of them, expanded by a reference matcher and by the implementation"),
 "M01": ("model_checking", "exhaustive enumeration of macro shapes x places of definition x binders around the use x every assignment of names from a small alphabet, for syntax-rules, er- and rsc-macro-transformers, expanded and run by a renaming reference interpreter and by the implementation"),
 "S01": ("model_checking", "exhaustive enumeration of every string, vector, bytevector and homogeneous-vector operation x length x start, end, destination and aliasing up to a bound, and breadth-first exploration of the states of two objects under every mutation with each transition replayed on the implementation; oracle: Python sequences"),
 "R01": ("model_checking", "exhaustive enumeration of all symbols and strings over small alphabets, all trees of pairs and vectors up to a size and all rooted graphs with every assignment of their fields, each written by the three writers on the implementation; oracle: a reference reader (isomorphism for write-shared, bisimulation and minimal labels for write) and the implementation's own reader"),
 "R02": ("model_checking", "exhaustive enumeration of all texts up to a length over alphabets of characters and of tokens, all atom x separator x atom texts, all nestings and truncations, each read to its end on the implementation and compared datum by datum with a reference reader written from the report"),
 "V01": ("model_checking", "exhaustive enumeration of all pairs of a catalogue of values under the three predicates and of all pairs of rooted graphs with every assignment of their fields under equal? on the implementation; oracle: bisimulation by partition refinement; list shapes, searches and copies on every graph"),
 "L01": ("model_checking", "exhaustive enumeration of import-set expressions up to a depth, of re-export and import graphs over four libraries, of histories of definition, assignment and import over libraries and environments up to a length (breadth-first over a model of bindings), of cond-expand requirements, library declarations and nested file inclusions, each replayed on the real implementation; oracle: a binding-table model of libraries in Python"),
 "D01": ("model_checking", "exhaustive enumeration of every list over a small alphabet up to a length with every small argument of every list procedure, all orders of calls of procedure arguments, all re-entries and escapes, executed on the real code; oracle: Python list models, with argument preservation, sharing and freshness observed"),
 "I01": ("model_checking", "explicit exploration of every sequence of port operations up to a depth on every kind of port over every content up to a length (characters of every encoded length, every line ending), of all interleavings on two ports, of all histories of files up to a length and of every split of standard input; every sequence is replayed on the real ports in lockstep with a model stream (content and position) or model directory"),
 "S02": ("model_checking", "complete enumeration of the code points (all 1112064) under every classification and case mapping and through the conversions to and from integers, strings, symbols, text, ports and files, and explicit exploration of every string up to a length over characters of every encoded length and of every pair and chain of strings under every comparison; the oracle is the Unicode character database and every case is executed by the real interpreter"),
}
