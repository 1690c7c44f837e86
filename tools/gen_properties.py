#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the texts readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("G01", "Garbage collection is invisible to programs",
  "For every program and every choice of moments at which garbage is collected, the program computes the same results, output and errors as if no collection ever happened. No object that the program can still reach (through variables, captured continuations, closures, ports, libraries, parameters, handlers or half-built data inside a primitive) is reclaimed or altered, and reclaiming unreachable objects never touches freed memory.",
  ["schedules", "programs"],
  "every placement of a collection at an allocation point, for programs using every kind of object",
  "Tests run with the default threshold, so a collection happens at a handful of allocation points that no test chooses; an unrooted temporary only matters if a collection lands exactly between its allocation and its use.",
  ["src/kernel/collector.cpp", "include/meevax/kernel/collector.hpp", "include/meevax/memory/pointer_set.hpp", "include/meevax/kernel/object.hpp"],
  [("precise mark and sweep over registered handles", "src/kernel/collector.cpp: collector::mark, mark, sweep"), ("registration of every handle on construction, copy, move, reset and destruction", "include/meevax/kernel/collector.hpp, object::reset"), ("collection trigger at allocation", "collector::request")],
  [("objects", "the set of all live handles", "src/kernel/collector.cpp"), ("data", "the set of all heap data", "src/kernel/collector.cpp")],
  ["result, output and errors of the program under each collection schedule", "AddressSanitizer reports"],
  "an allocation-point callback in the collector's request function")

p("G02", "Unreachable objects are eventually reclaimed and live ones counted exactly",
  "After a full collection the number of live heap objects does not grow with the number of times a program fragment that retains nothing has been run, whatever the fragment did (cycles, closures, escapes, re-entered continuations, errors, evaluation, macro use, ports). The set of addresses the collector tracks behaves exactly like a mathematical ordered set under every sequence of insertion, removal, lookup, iteration and exchange.",
  ["histories", "programs"],
  "every sequence of set operations up to a bound over addresses that share or do not share leaves; every fragment of a corpus repeated",
  "No test looks at the number of live objects or at the tracking set with neighbouring, boundary or removed addresses in all orders.",
  ["include/meevax/memory/pointer_set.hpp", "src/kernel/collector.cpp", "include/meevax/memory/allocator.hpp"],
  [("three-level bitmap set with occupancy words", "include/meevax/memory/pointer_set.hpp"), ("sweep erases and frees unmarked data", "src/kernel/collector.cpp: sweep"), ("free-list allocator", "include/meevax/memory/allocator.hpp")],
  [("free list", "cells given back and not yet reused", "include/meevax/memory/allocator.hpp")],
  ["set contents against a model", "live object count after collection", "addresses handed out by the allocator"])

p("C01", "First-class continuations restore control exactly, any number of times",
  "Invoking a captured continuation abandons the current computation and resumes the captured one with the passed value, however often and from wherever it is invoked, with all variables keeping their latest assigned values. Leaving and entering dynamic extents this way runs exactly the after thunks of the extents left (innermost first) and the before thunks of the extents entered (outermost first), each once, and none of the extents common to both; values passed to the receiver of a multiple-value call arrive complete and in order.",
  ["programs"],
  "every program up to a size bound composed from capture, invocation, re-entry, dynamic-wind, assignment and multiple values",
  "Tests run a few textbook examples; they never combine nested extents of different depth with re-entry.",
  ["library/meevax.ss", "src/kernel/dynamic_environment.cpp", "library/r5rs.ss"],
  [("call-with-current-continuation over dynamic extents", "library/meevax.ss: windup!"), ("machine registers saved in a continuation object", "src/kernel/dynamic_environment.cpp"), ("values / call-with-values", "library/r5rs.ss")],
  [("dynamic extents", "list of active before/after pairs", "library/meevax.ss")],
  ["event trace and final value"])

p("C02", "Exceptions reach the right handler in the right dynamic environment",
  "A raised object, whether raised by the program or by a primitive, is passed to the innermost handler active at the raise, called with the outer handlers active; returning from it continues a continuable raise with the returned value and otherwise raises again in the outer handlers. A guard form evaluates its clauses in its own dynamic environment, and if none applies re-raises continuably in the dynamic environment of the original raise; after any such transfer the handler stack, dynamic extents and parameter bindings are those of the point control arrived at.",
  ["programs"],
  "every program up to a size bound composed from raise, raise-continuable, error, failing primitives, with-exception-handler, guard with =>, else and no matching clause, dynamic-wind, parameterize and escapes",
  "Tests use the report's single-level examples; nesting of handlers, guards, winds and escapes is a product they do not cover.",
  ["library/srfi-34.ss", "src/kernel/dynamic_environment.cpp", "library/srfi-23.ss", "src/kernel/error.cpp"],
  [("handler stack register", "library/srfi-34.ss"), ("C++ errors converted to a call of the Scheme handler", "src/kernel/dynamic_environment.cpp: execute catch clause"), ("guard via two continuations", "library/srfi-34.ss: guard")],
  [("exception handlers", "auxiliary register 2", "library/srfi-34.ss")],
  ["event trace, value and the object that reaches top level"])

p("C03", "Parameters and promises follow dynamic extent and evaluate once",
  "A parameter object yields the value of the innermost active binding in the current dynamic extent, converted exactly once per binding, and control transfers in and out of the extent switch bindings accordingly. A promise computes its value at most once: every force of it returns the first value delivered even when forcing is re-entrant or the promise is forced again through a continuation, and a chain of delayed forces runs in bounded space.",
  ["programs"],
  "every program up to a size bound composed from make-parameter with and without converter, parameterize, call/cc, delay, delay-force, make-promise and force",
  "Tests check the report's examples only; order, conversion count and re-entrancy combine in ways they do not enumerate.",
  ["library/srfi-39.ss", "library/srfi-45.ss"],
  [("dynamic bindings register swapped by dynamic-wind", "library/srfi-39.ss"), ("shared promise cell update", "library/srfi-45.ss: promise-update!")],
  (), ["event trace and values"])

p("E01", "Core expressions evaluate as the report specifies",
  "For every program built from lambda (fixed, optional-rest and rest formals), application, if, set!, define (top-level and internal, in any order and mutually recursive), let, let*, letrec, letrec*, named let, do, begin, case, cond, and, or, when, unless, case-lambda, let-values, define-values and quasiquote, the value computed and the sequence of side effects are those of lexical scoping with the report's evaluation rules. Shadowing, capture and assignment of variables at any nesting depth refer to the lexically visible binding, including variables captured by several closures and variables named like keywords.",
  ["programs"],
  "every expression up to a size bound over that grammar, a small set of variable names and observable effects",
  "Tests give one or two examples per form; compilation to frame indices, internal-definition sweeping and tail/non-tail variants of each form interact.",
  ["src/kernel/syntactic_environment.cpp", "src/kernel/expander.cpp", "src/kernel/generator.cpp", "src/kernel/dynamic_environment.cpp", "library/r4rs.ss", "library/r7rs.ss", "library/srfi-16.ss", "library/srfi-11.ss"],
  [("de Bruijn index resolution", "src/kernel/syntactic_environment.cpp: identify"), ("internal definition sweep", "src/kernel/syntactic_environment.cpp: sweep"), ("instruction generation, tail and non-tail", "src/kernel/generator.cpp"), ("derived forms", "library/r4rs.ss")],
  (), ["final value and event trace"])

p("E02", "Tail calls run in bounded space",
  "A program that loops through tail calls, in whichever tail position of whichever form (including apply, call/cc receivers, continuation invocation, dynamically chosen procedures, mutually recursive procedures and derived forms), runs for any number of iterations with a live memory footprint that does not depend on that number. Non-tail recursion still returns to every pending frame.",
  ["programs", "histories"],
  "every composition up to depth 2 of tail contexts, each run for two iteration counts",
  "One deep loop per test cannot cover every tail context and composition of contexts.",
  ["src/kernel/generator.cpp", "src/kernel/syntactic_environment.cpp", "library/r4rs.ss"],
  [("tail variants of generators", "src/kernel/generator.cpp: tail_call, tail_select, ..."), ("tail-call instruction dropping the frame", "src/kernel/dynamic_environment.cpp")],
  (), ["live object count after a collection and dump depth during the loop"])

p("M01", "Macro expansion is hygienic",
  "Renaming bound variables consistently, in a macro definition, in its use, or in the surrounding program, never changes what the program computes: a name introduced by a transformer refers to the binding visible where the macro was defined, and a name supplied by the use refers to the binding visible at the use, even when local bindings, other macros or shadowed core keywords use the same names. This holds for syntax-rules, er-macro-transformer and rsc-macro-transformer, at top level, in libraries, in let-syntax, letrec-syntax and internal definitions.",
  ["programs"],
  "every program of a grammar of macro definitions, uses and surrounding binders, under every renaming of the binders from a small alphabet",
  "Tests exercise a few classical capture examples; the interaction depends on which of several names coincide.",
  ["src/kernel/syntactic_closure.cpp", "src/kernel/syntactic_environment.cpp", "src/kernel/expander.cpp", "library/meevax.ss", "library/srfi-149.ss"],
  [("syntactic closures with alpha-equivalence", "src/kernel/syntactic_closure.cpp"), ("er / sc / rsc transformers", "library/meevax.ss")],
  (), ["value of the program against the uniquely-renamed reference"])

p("M02", "syntax-rules matches and instantiates as specified",
  "For every syntax-rules pattern and template, including nested ellipses, ellipsis followed by fixed patterns, dotted tails, vectors, literals, underscore, escaped ellipsis and custom ellipsis, a use expands with the first rule whose pattern matches and with exactly the specified instantiation; a use no rule matches is an error rather than an arbitrary expansion.",
  ["inputs"],
  "every pattern/template/form combination up to a size bound",
  "Tests use a handful of patterns.",
  ["library/srfi-149.ss"],
  [("pattern compiler", "library/srfi-149.ss")],
  (), ["expansion result as a quoted datum"])

p("L01", "Libraries and environments bind exactly what they declare",
  "A program or environment sees exactly the identifiers its import sets denote, under every nesting of only, except, prefix and rename and every export renaming, each bound to the exporting library's variable or syntax, and unexported or unimported names stay invisible. A library body is evaluated once however many times and through however many paths it is imported, and definitions or assignments in one library, program or environment never change the meaning of equally named bindings in another.",
  ["programs", "histories"],
  "every import set up to nesting depth 3 over a small library, every order of importing and defining over a small library graph",
  "Tests import whole libraries with at most one modifier and never compare visibility, instantiation counts and isolation over all combinations.",
  ["src/kernel/environment.cpp", "src/kernel/library.cpp", "src/kernel/conditional_expand.cpp"],
  [("import-set resolution", "src/kernel/environment.cpp"), ("lazy one-time body evaluation", "src/kernel/library.cpp"), ("cond-expand requirement evaluation", "src/kernel/conditional_expand.cpp")],
  [("libraries", "registry of named libraries", "src/kernel/library.cpp")],
  ["visibility and value of each name; count of body evaluations"])

p("R01", "Written data reads back as the same data",
  "For every datum built from booleans, characters, strings, symbols, exact and inexact numbers, pairs, lists, vectors and bytevectors, writing it and reading the text back gives an equal datum that consumes the whole text, and successive data written with separators are read back one by one in order. write-shared, and write where it must, represent shared and circular structure with labels so that reading yields an isomorphic structure.",
  ["inputs"],
  "every datum up to a size bound over an alphabet of troublesome atoms, every small graph",
  "Tests round-trip a few literals; escapes, delimiters and nesting interact.",
  ["src/kernel/pair.cpp", "src/kernel/string.cpp", "src/kernel/character.cpp", "src/kernel/symbol.cpp", "src/kernel/textual_input_port.cpp", "src/kernel/vector.cpp", "library/srfi-38.ss"],
  [("external representation writers", "operator << of each kind"), ("reader", "src/kernel/textual_input_port.cpp")],
  (), ["structural identity of the datum read back"])

p("R02", "Reading any text is total and delimits data exactly",
  "For every text, reading data from it terminates with each datum, an end-of-file object or a catchable read error, never a crash or a hang, and yields exactly the data the lexical syntax denotes, including comments of all three kinds, quotation abbreviations, dotted pairs, escapes, radix and character names, and labels. A datum ends exactly at its delimiter, so what follows it is read as if it stood alone.",
  ["inputs"],
  "every token string up to a length bound over an alphabet of lexical elements",
  "Tests read well-formed samples; adjacency of tokens, truncation and misplaced punctuation are a combinatorial space.",
  ["src/kernel/textual_input_port.cpp", "include/meevax/kernel/textual_input_port.hpp"],
  [("recursive-descent reader", "src/kernel/textual_input_port.cpp: read")],
  (), ["sequence of data / eof / read error against a reference reader"])

p("N01", "Exact arithmetic is exact at every magnitude",
  "Addition, subtraction, multiplication, division, comparison, quotient, remainder, modulo, gcd, lcm, exponentiation, integer square root, rounding, numerator, denominator and the predicates on exact integers and rationals give the mathematically exact result for operands of any size and sign and mixtures of integers and rationals. Results are canonical: equal values are interchangeable whatever path computed them (=, eqv? and equal? agree, integral rationals are integers), and every result can be used as an index or count wherever an equal literal could.",
  ["inputs"],
  "every operator on all pairs from an alphabet of boundary values around the small-integer, 64-bit and multi-limb limits and small rationals; all chains up to depth 2",
  "Tests use small or a few large literals; overflow into and back out of the big representation happens at boundaries they do not reach.",
  ["src/kernel/number.cpp", "include/meevax/kernel/number.hpp", "src/kernel/large_integer.cpp", "src/kernel/ratio.cpp", "src/kernel/number/power.cpp", "src/kernel/number/nearest_integer.cpp"],
  [("dispatch over representation pairs", "include/meevax/kernel/number.hpp: apply_to"), ("canonicalisation", "include/meevax/kernel/number.hpp: canonicalize")],
  (), ["value and exactness of each result"])

p("N02", "Integer division families and bit operations obey their definitions",
  "Each of the floor, truncate, ceiling, round, euclidean and balanced division operators satisfies n = d*q + r with r in the range its family defines, for every sign and size of n and d. The bitwise operations on exact integers (logical operations, shifts, counts, fields, rotations, reversals, conversions to and from lists of bits) and the fixnum operations equal their two's-complement definitions.",
  ["inputs"],
  "every operator over all tuples from boundary alphabets",
  "Tests use one or two rows of each table.",
  ["library/srfi-141.ss", "library/srfi-151.ss", "library/srfi-143.ss", "src/kernel/number/bitwise.cpp"],
  [("division families", "library/srfi-141.ss"), ("bit operations", "library/srfi-151.ss, src/kernel/number/bitwise.cpp")],
  (), ["values against a big-integer reference"])

p("N03", "Numbers convert to text and between exactness without loss",
  "Converting an exact number to text in any supported radix and back gives the same number, and converting an inexact number to decimal text and back gives the same number; numeric literals denote their mathematical value. Comparisons between exact and inexact numbers and conversions with exact, inexact, floor, ceiling, truncate and round are mathematically correct for every magnitude.",
  ["inputs"],
  "all boundary exact numbers in radices 2, 8, 10, 16; all floating-point numbers with few significant bits and every exponent class; all pairs across exactness",
  "Tests convert a few small values.",
  ["src/kernel/number.cpp", "src/kernel/large_integer.cpp", "src/kernel/ratio.cpp", "src/kernel/number/nearest_integer.cpp"],
  [("number parser", "src/kernel/number.cpp: make_number"), ("number printer", "src/kernel/number.cpp: number_to_string")],
  (), ["text and bit pattern"])

p("V01", "Equivalence predicates are equivalences with the specified granularity",
  "eq?, eqv? and equal? are reflexive, symmetric and transitive, each finer than the next; eqv? distinguishes distinct mutable objects and numbers of different exactness, and equal? holds exactly when the possibly infinite unfoldings of two data are equal, terminating on cyclic data. Membership and association searches, list-shape predicates and copying terminate on, and agree with, the structure they are given, including circular and shared structure where they accept it.",
  ["inputs"],
  "all pairs of nodes of all pointer graphs up to a bound, all pairs of atoms",
  "Tests compare a few literals; cyclic and shared graphs are a combinatorial space.",
  ["src/kernel/comparator.cpp", "include/meevax/kernel/comparator.hpp", "src/kernel/list.cpp"],
  [("union-find equality", "src/kernel/comparator.cpp")],
  (), ["truth value against bisimulation"])

p("V02", "Every value keeps its identity, type and content",
  "Every value belongs to exactly one of the disjoint types (boolean, character, empty list, pair, symbol, string, number, vector, bytevector, procedure, port, end-of-file object, record type instances), and storing it in any variable, pair, vector, record or closure and retrieving it gives the same value. Distinct immediate values never coincide: every small integer, character, boolean and floating-point number is distinguishable from every other, and records of different types are distinguishable with each field holding its own last stored value.",
  ["inputs", "histories"],
  "all characters, all boundary integers and floating-point patterns, all pairs of type predicates and values, all field-operation sequences up to a bound",
  "Tests touch a few values per type.",
  ["include/meevax/memory/nan_boxing_pointer.hpp", "include/meevax/kernel/object.hpp", "library/srfi-9.ss"],
  [("NaN-boxed tagging", "include/meevax/memory/nan_boxing_pointer.hpp"), ("records", "library/srfi-9.ss")],
  (), ["type predicates and content"])

p("S01", "String, vector and bytevector operations touch exactly their range",
  "Every construct, access, update, copy, fill, append, conversion, comparison and mapping operation on strings, vectors and bytevectors (and the other homogeneous vectors) with every valid combination of optional start, end and destination arguments reads and writes exactly the elements the report specifies, as if through a temporary copy when source and destination overlap, and leaves every other element and argument unchanged. Freshly allocated results never share storage with the arguments.",
  ["inputs", "histories"],
  "every operation with every valid argument tuple on sequences up to length 4, and every sequence of mutating operations up to a depth",
  "Tests call each with one or two index combinations and never an overlapping copy in both directions.",
  ["src/kernel/boot.cpp", "src/kernel/string.cpp", "include/meevax/kernel/homogeneous_vector.hpp", "library/r7rs.ss", "library/srfi-4.ss"],
  [("sequence primitives", "src/kernel/boot.cpp")],
  (), ["content of every sequence after every step"])

p("S02", "Characters and text encode and map by the Unicode tables",
  "Every Unicode scalar value survives conversion between integer, character, string, UTF-8 bytevector, file and port unchanged, in every combination with characters of other encoded lengths. Case conversion, classification and digit values agree with the Unicode character database for every code point, and string comparison orders by code point (case-folded for the -ci forms) for every pair of strings.",
  ["inputs"],
  "all code points; all strings up to length 3 over an alphabet of characters of each encoded length",
  "Tests use ASCII and a few literals.",
  ["src/kernel/character.cpp", "include/meevax/kernel/character.hpp", "src/kernel/string.cpp", "configure/UnicodeData.txt", "script"],
  [("UTF-8 encoder and decoder", "src/kernel/character.cpp, src/kernel/textual_input_port.cpp"), ("generated property tables", "include/meevax/unicode")],
  (), ["code points and bytes"])

p("I01", "Ports deliver exactly the stream, in order",
  "For every sequence of read, peek and readiness operations on a string, bytevector or file port, the results are exactly the successive characters, lines, strings, bytes and data of the underlying content, a peek never consumes, and the end-of-file object appears exactly when the content is exhausted. For every sequence of writes, the accumulated or stored content is the concatenation of what was written, a file read back gives the same content, and operations on one port never affect another.",
  ["histories", "inputs"],
  "every operation sequence up to a depth over contents with and without final newline, multi-byte characters and exhausted input",
  "Tests perform one operation order per port kind.",
  ["src/kernel/textual_input_port.cpp", "src/kernel/textual_output_port.cpp", "src/kernel/binary_input_file_port.cpp", "include/meevax/kernel/input_homogeneous_vector_port.hpp", "library/r7rs.ss"],
  [("textual input", "src/kernel/textual_input_port.cpp"), ("binary input", "include/meevax/kernel/input_homogeneous_vector_port.hpp")],
  [("stream position", "next unread character or byte", "port objects")],
  ["result of every operation against a model stream"])

p("D01", "List procedures compute their specified results",
  "Every procedure of the list library (construction, selection, folding, mapping over lists of unequal length, filtering, partitioning, searching, deletion, association lists, lists as sets, and the higher-order procedures of the base library) returns the specified value for every valid argument and calls its procedure arguments on the specified elements in the specified order. Procedures not allowed to mutate leave their arguments unchanged and results share structure only where specified.",
  ["inputs"],
  "every procedure on all lists up to a length over a small element alphabet, with all small procedure arguments",
  "Tests call each once or twice.",
  ["library/srfi-1.ss", "src/kernel/list.cpp", "src/kernel/boot.cpp", "library/meevax.ss"],
  [("list library", "library/srfi-1.ss"), ("list primitives", "src/kernel/list.cpp")],
  (), ["value, call trace, arguments after the call"])

p("X01", "Errors and exits leave a well-defined process",
  "Whatever a program or script does before it ends, a process started to run it ends with the status the program asked for (exit and emergency-exit with every kind of argument, from any dynamic context), a failure status with a diagnostic when an error reaches top level, and success otherwise, with everything already written to its ports delivered. exit runs the outstanding after thunks, innermost first, exactly once; emergency-exit runs none; and command-line options take effect in the order given.",
  ["programs", "configurations"],
  "every combination of ending, context and argument, every option sequence up to a length",
  "Tests only check that a script ends successfully.",
  ["src/main.cpp", "src/kernel/configuration.cpp", "library/meevax.ss", "src/kernel/error.cpp"],
  [("top-level exception translation", "src/main.cpp"), ("exit", "library/meevax.ss"), ("option parser", "src/kernel/configuration.cpp")],
  (), ["exit status, standard output, standard error, files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
