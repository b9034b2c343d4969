#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
I = "include/rapidcheck/"

p("C01", "Random streams are a fixed pure function of key, split path and position",
  "For every 256-bit key or 64-bit seed and every history of drawing, splitting, copying and assigning generators, each drawn number equals the published splittable construction (Threefish-256 in counter mode over the split path, rehashing the key every 64 splits) evaluated at that state. Copies evolve independently, and two generators compare equal exactly when their states, and so their futures, are the same.",
  ["inputs", "histories"], "All keys, seeds and interleavings of next/split/copy/assign over several live generators, including split depths beyond 64 and 128.",
  "The tests compare a handful of stored vectors and sample short split trees; a defect that needs a deep path, a particular key word or a copied mid-block state is not reached.",
  ["src/Random.cpp", I + "Random.h", I + "Random.hpp"],
  [("counter-mode block cipher", "src/Random.cpp Random::mash/next"), ("split path bits and rehash", "src/Random.cpp Random::split/append")],
  [("key/bits/bitsi/counter/block", "position in the split tree and stream", I + "Random.h")])

p("C02", "Saved generator states and shrink paths restore exactly from their bytes",
  "Encoding any random generator state, integer, string, map or failure-reproduction record to bytes and decoding it gives back an equal value whose future behaviour is identical, and decoding consumes exactly the bytes that encoding produced. This holds when several values are encoded back to back and for every integer width and sign.",
  ["inputs", "histories"], "All reachable generator states (any number of splits, then any number of draws), all integral values of all widths, arbitrary byte strings as keys, shrink paths of any length and index.",
  "Tests sample random states near the start of a stream and short values; block boundaries, multi-byte continuation boundaries and concatenated records are only hit by chance.",
  [I + "detail/Serialization.hpp", I + "Random.hpp", I + "detail/Results.hpp", "src/detail/Base64.cpp", "src/detail/StringSerialization.cpp"],
  [("fixed and variable length integer codec", I + "detail/Serialization.hpp"), ("block recomputed on decode", I + "Random.hpp deserialize"), ("base64 text form", "src/detail/Base64.cpp")])

p("C03", "Generation is a pure function of the random state and the size",
  "For every generator expression, generating twice from the same random state and size yields the same value and the same tree of shrinks, however often, in whatever order and in whichever process values and shrinks are requested, and whatever other generators ran before. Exploring one copy of a result never changes what another copy yields.",
  ["inputs", "programs", "histories"], "All generator expressions built from the library's combinators, all random states and sizes, all orders of asking for values and shrinks.",
  "Tests check single combinators on a few values; hidden state, use of uninitialised memory or order dependence needs compositions and repeated, interleaved traversal.",
  [I + "Gen.hpp", I + "Shrinkable.hpp", I + "Seq.hpp", I + "gen/Container.hpp", I + "gen/detail/ExecRaw.hpp", I + "state/gen/Commands.hpp"],
  [("explicit random state split per component", I + "gen/*.hpp"), ("sequences copied with their position", I + "Seq.hpp")])

p("C04", "The test loop runs, sizes, counts and stops exactly as configured",
  "For every sequence of case outcomes and every configuration, the property is run once per case until the configured number of successes, the first failure, or more discards than the allowed ratio times the success target, and the reported verdict, success count and distribution are those of the cases that ran. Sizes start at zero, follow the even spread over zero to the maximum (reaching the maximum whenever the run has at least two successes left for a partial round or a full round), and grow only by one per ten consecutive discards; every case uses a fresh split of the seeded stream.",
  ["inputs", "configurations", "histories"], "All success targets, maximum sizes, discard ratios, seeds, and all finite outcome scripts of success, discard and failure.",
  "Tests use fixed or lightly sampled parameters; off-by-one errors in the limits, the spread of sizes and the discard accounting appear only for particular combinations and outcome histories.",
  ["src/detail/Testing.cpp", "src/Check.cpp"],
  [("search loop", "src/detail/Testing.cpp searchProperty"), ("size schedule", "src/detail/Testing.cpp sizeFor")],
  [("recent and total discards", "consecutive and overall discarded cases", "src/detail/Testing.cpp")])

p("C05", "A reported counterexample fails the property and is locally minimal",
  "Whenever a property fails, the reported counterexample is one for which the property really fails, it is reached from the first failing case through successive shrinks each of which failed, and no immediate shrink of it fails. Observers are told of every tried shrink once and in order with the right verdict, discarded shrinks are never accepted, and with shrinking disabled the first failing case itself is reported.",
  ["inputs", "programs"], "All properties over generated values and synthetic shrink trees, all mixtures of pass, fail and discard among shrinks.",
  "Tests exercise a few hand-made trees; acceptance of a non-failing or discarded candidate, a wrong path index or an early stop needs particular tree shapes.",
  ["src/detail/Testing.cpp", "src/detail/Property.cpp", I + "shrinkable/Operations.hpp"],
  [("greedy descent", "src/detail/Testing.cpp shrinkTestCase"), ("counterexample description", "src/detail/Property.cpp mapToCaseDescription")])

p("C06", "Reproducing a failure replays the same minimal counterexample",
  "For every failing run, replaying with the reproduction record it reported, whether directly or through its printed text form, fails again with the same description and the same counterexample without searching. Properties not named in the record are skipped as passed with zero tests, and a record that no longer leads to a failure is reported as an error rather than as success or as another failure.",
  ["inputs", "programs", "histories"], "All properties and generators, seeds, sizes, shrink depths and names; also records whose path is cut, extended or altered.",
  "Tests replay a few properties with short paths; random states deep in a run, long paths, unusual names and stale records are not covered.",
  ["src/Check.cpp", "src/detail/Testing.cpp", "src/detail/ReproduceListener.cpp", "src/detail/StringSerialization.cpp", I + "shrinkable/Operations.hpp"],
  [("replay by random state, size and path", "src/detail/Testing.cpp reproduceProperty"), ("selection by name", "src/Check.cpp checkProperty")])

p("C07", "Configuration strings round-trip and honour every key",
  "Writing any configuration as text, in full or minimal form, and reading it back yields an equal configuration; each key changes only its own setting and absent keys keep their defaults. Key/value texts with spaces, either quote character, backslashes or equals signs survive writing and reading unchanged.",
  ["inputs", "configurations"], "All settings values, all reproduction maps with arbitrary byte-string names, all key/value maps with non-empty keys, both quote styles and arbitrary spacing between items.",
  "Tests use random configurations with simple names; quoting, spacing and escape interactions are only sampled lightly.",
  ["src/detail/Configuration.cpp", "src/detail/MapParser.cpp", "src/detail/StringSerialization.cpp"],
  [("key=value parser and printer", "src/detail/MapParser.cpp"), ("typed loading with validation", "src/detail/Configuration.cpp")])

p("C08", "Malformed configuration and reproduction text is rejected cleanly",
  "For every string given as configuration or as reproduction text, loading either yields a configuration or reports a configuration error; it never crashes, hangs, reads outside the input, allocates without bound or lets another kind of error escape. A truncated reproduction text is always rejected, negative counts, unreadable numbers and bad alphabet characters are rejected.",
  ["inputs", "fault_sequences"], "All byte strings, with emphasis on truncations, single-byte mutations and length-field corruptions of valid strings.",
  "Tests try a few invalid literals; memory-safety at every truncation point and hostile length fields need generated corruption under sanitizers.",
  ["src/detail/Configuration.cpp", "src/detail/MapParser.cpp", "src/detail/Base64.cpp", I + "detail/Serialization.hpp", I + "Random.hpp"],
  [("end-of-input checks", I + "detail/Serialization.hpp"), ("translation to configuration errors", "src/detail/Configuration.cpp configFromString")])

p("C09", "Test programs obey their environment configuration and rerun identically",
  "A test program run twice with the same environment configuration prints the same report; the seed and reproduction text it prints, when fed back through the environment, replay the same run or the same minimal failures with the other named properties skipped. A malformed configuration makes the program exit with an error before any property runs, and program success equals no property having failed.",
  ["configurations", "inputs"], "All combinations of seed, success target, size, ratio, shrinking, verbosity and reproduction settings for a program with passing, failing, discarding and tagged properties.",
  "No existing test runs a program through the environment variable; the printed texts and their re-use are never exercised end to end.",
  ["src/detail/Configuration.cpp", "src/detail/DefaultTestListener.cpp", "src/detail/ReproduceListener.cpp", "src/detail/LogTestListener.cpp", I + "Check.hpp"],
  [("environment loading", "src/detail/Configuration.cpp loadConfiguration"), ("reproduce report at exit", "src/detail/ReproduceListener.cpp")])

p("C10", "Each case outcome is classified from what the body did",
  "A case fails exactly when its body returns false, a non-empty text or a failure, throws anything that is not one of the library's own signals, violates an assertion, or reports a failure through the reporting interface, unless it was discarded; discards (preconditions and failed generation) win over everything reported, and explicit success ends the body. The description carries the assertion text with location and expansion or the exception text, all reported failures in order, and the log of that case only.",
  ["programs", "inputs"], "All bodies composed of log, tag, report, assertion, precondition, success, failure and exception steps with any return type.",
  "Tests check each macro once; precedence among several reports, discards and exceptions in one case is combinatorial.",
  [I + "detail/Property.hpp", "src/detail/Property.cpp", I + "Assertions.h", I + "Assertions.hpp", "src/detail/Assertions.cpp", I + "detail/Capture.h", "src/Log.cpp"],
  [("result accumulation", "src/detail/Property.cpp AdapterContext::reportResult"), ("exception translation", I + "detail/Property.hpp")])

p("C11", "The reported tag distribution counts exactly the successful tagged cases",
  "For every run, the distribution maps each ordered tag list to the number of successful cases that produced exactly that list, ignoring untagged, discarded and failed cases, and classification adds its tags exactly when its condition holds. The printed percentages are those counts over the number of tests, sorted by descending frequency.",
  ["programs", "histories"], "All sequences of cases with arbitrary ordered tags, conditions, discards and a possible final failure.",
  "Tests check single tags; leaking tags between cases, order and duplicates need whole histories.",
  ["src/Classify.cpp", I + "Classify.h", "src/detail/Testing.cpp", "src/detail/Results.cpp", "src/detail/Property.cpp"],
  [("tags kept per case", "src/detail/Property.cpp addTag"), ("distribution printing", "src/detail/Results.cpp")])

p("C12", "Range generators stay in range, scale with size and shrink to the minimum",
  "For every integer type and bounds with minimum below maximum, every value anywhere in the shrink tree lies in [minimum, maximum), size zero yields only the minimum, values at other sizes lie within the proportional initial part of the range, and at nominal size or above every value of a small range occurs. Shrinks lie strictly between the minimum and the value or are the minimum, never repeat the value, and greedy shrinking against any threshold finds the smallest failing value; an empty or inverted range fails generation.",
  ["inputs"], "All bounds of all integer types including full-width ranges, all sizes from zero to beyond nominal, all random states.",
  "Tests use narrow windows of bounds; full-width and sign-crossing ranges, scaling rounding and bias appear only at specific widths and sizes.",
  [I + "gen/Numeric.hpp", "src/gen/Numeric.cpp", I + "shrink/Shrink.hpp", I + "detail/BitStream.hpp"],
  [("range scaling", I + "gen/Numeric.hpp inRange"), ("shrink towards", I + "shrink/Shrink.hpp")])

p("C13", "Arbitrary numbers respect size limits and cover their type",
  "For every arithmetic type and size, generated integers fit in the bit width proportional to size (full width at nominal size and above, zero at size zero), real numbers are finite and bounded by size, and both truth values occur. Every shrink tree is finite along greedy paths, never contains a value as its own shrink, moves towards zero, and the sign and zero predicates (positive, negative, non-negative, non-zero) hold for every value in the tree.",
  ["inputs"], "All built-in integer, real and boolean types, sizes zero to above nominal, all random states and all shrink paths.",
  "Tests sample a few sizes and only first-level shrinks for some types.",
  [I + "gen/Numeric.hpp", "src/gen/Numeric.cpp", I + "detail/BitStream.hpp", I + "shrink/Shrink.hpp", I + "gen/Predicate.hpp"],
  [("sized bit draw", I + "detail/BitStream.hpp nextWithSize"), ("integral and real shrinkers", I + "shrink/Shrink.hpp")])

p("C14", "Generated containers have the promised length and elements at every shrink",
  "For every standard container type, a generated container holds at most as many elements as the size, or exactly the requested count where one is given, in every value of its shrink tree; every element anywhere comes from the element generator, and keyed containers hold unique keys. Shrinks only remove or shrink elements, reach the empty container when no count is fixed, and a fixed count that cannot be met fails generation instead of returning fewer.",
  ["inputs", "programs"], "All supported container kinds, element generators (including ones producing few distinct values), counts, sizes, and all paths into the shrink tree.",
  "Tests check a few element types and shallow shrinks; duplicates arising only after shrinking keys or partial fills under exhaustion are hit rarely.",
  [I + "gen/Container.hpp", I + "shrinkable/Transform.hpp", I + "shrink/Shrink.hpp"],
  [("collection strategies per container kind", I + "gen/Container.hpp")])

p("C15", "Unique containers never hold duplicates, even while shrinking",
  "For every key function and element generator, no value in the shrink tree of a unique container holds two elements with equal keys, lengths obey the requested count or the size, and every element comes from the element generator. Generation fails, rather than yielding duplicates or a short container, when enough distinct elements cannot be found.",
  ["inputs", "programs"], "All key functions (including many-to-one and stateful ones), element generators with shrinks that collide, counts and sizes, all shrink paths.",
  "Tests shrink integers with simple keys; collisions between a shrunk element and a later one need particular trees.",
  [I + "gen/Container.hpp", I + "gen/Container.h"],
  [("distinct key filter on generation and shrink", I + "gen/Container.hpp UniqueContainerStrategy")])

p("C16", "Filtered generators only ever yield values satisfying the predicate",
  "For every generator and predicate, every value in the tree of a filtered generator (including its distinct-from and non-empty forms) satisfies the predicate and is a value the unfiltered generator can produce; generation keeps retrying with growing size for a bounded number of tries, succeeds if a try within them would, and otherwise reports a generation failure that discards the case. Filtering loses no shrink that is reachable through satisfying values.",
  ["inputs", "programs"], "All predicates over generated values, from always true to never true, and all nested filters.",
  "Tests use a few predicates; predicates true on sparse sets and only deep in shrink trees are not sampled.",
  [I + "gen/Predicate.hpp", I + "shrinkable/Transform.hpp"],
  [("bounded retry with size growth", I + "gen/Predicate.hpp suchThat"), ("tree filter", I + "shrinkable/Transform.hpp filter")])

p("C17", "Selection generators pick only offered items with the promised weights",
  "For every list of elements, generators or weights, the generated value is one of the offered ones, each positively weighted item occurs with frequency proportional to its weight, zero-weighted items never occur, and sized selection uses only the initial part of the list proportional to size. Selecting from an empty list or with all weights zero fails generation, element selection shrinks never leave the list, and one-of yields exactly the chosen generator's tree.",
  ["inputs"], "All list lengths, weights, sizes and random states.",
  "Tests check that results are members; weighting arithmetic and boundary picks need many draws over many weight vectors.",
  [I + "gen/Select.hpp"],
  [("cumulative weight lookup", I + "gen/Select.hpp"), ("sized index", I + "gen/Select.hpp sizedElementOf")])

p("C18", "Combined generators obey map, bind and tuple laws over whole shrink trees",
  "For every generator and function, mapping, casting, binding, joining, applying, pairing, tupling and constructing yield exactly the value trees obtained by applying the function to the component trees: components shrink one at a time in order with the others unchanged, and bound generators shrink the first value before the second. Applications and tuples draw each component from independent splits, and identity, composition and associativity hold.",
  ["programs", "inputs"], "All component trees and functions, tuple widths, random states and sizes, compared node by node to a reference tree.",
  "Tests compare first-level shrinks for small arities; whole-tree structure under nesting is not covered.",
  [I + "gen/Transform.hpp", I + "gen/Tuple.hpp", I + "shrinkable/Transform.hpp", I + "gen/Create.hpp"],
  [("tree map, mapcat and pair", I + "shrinkable/Transform.hpp"), ("recursive tuple generator", I + "gen/Tuple.hpp")])

p("C19", "Object builders set every member from its own generator",
  "For every set of bindings, a built object carries in each bound member or setter argument a value of that binding's generator, leaves unbound members as the base generator produced them, and applies bindings once per produced object in every value of the shrink tree; constructed, unique-pointer and shared-pointer objects receive exactly their argument generators' values. Shared or unique pointees are never shared between separately produced values.",
  ["programs", "inputs"], "All subsets and orders of bindings to members, one-argument and several-argument setters, all shrink paths.",
  "Tests build a few fixed objects; aliasing between repeated productions and setters under shrinking is not explored.",
  [I + "gen/Build.hpp", I + "gen/Build.h", I + "gen/Create.h"],
  [("bindings applied over a tuple of values", I + "gen/Build.hpp")])

p("C20", "Generated characters and strings are valid, sized and shrink to simpler text",
  "For every character and string type, generated characters are never the terminator, strings hold at most size characters, and every value in the shrink tree keeps both, with string shrinks only removing or simplifying characters. Character shrinks come from the fixed list of simple characters that precede the value, so shrinking always ends, and all simple characters can be generated, the 7-bit ones making up about half of what is generated.",
  ["inputs"], "Narrow and wide character types and strings, all sizes, random states and shrink paths.",
  "Tests check char mostly and only some sizes.",
  [I + "gen/Text.hpp", "src/gen/Text.cpp", I + "shrink/Shrink.hpp"],
  [("character mix and string fast path", I + "gen/Text.hpp"), ("simple character shrinker", I + "shrink/Shrink.hpp character")])

p("C21", "Optional value generators yield nothing or the wrapped generator's values",
  "For every wrapped generator, an optional value is either nothing or a value of the wrapped generator, nothing is always an immediate first shrink of a present value and the remaining shrinks are exactly the wrapped shrinks, and absence has no shrinks. Absence is certain or frequent at size zero and rarer as size grows, and the Boost optional form behaves the same as the library's own.",
  ["inputs", "programs"], "All wrapped generators, random states, sizes and shrink paths.",
  "Tests check a few values; frequency as a function of size and equality of the two forms are not checked.",
  [I + "gen/Maybe.hpp", "extras/boost/include/rapidcheck/gen/boost/Optional.hpp", I + "shrinkable/Transform.hpp"],
  [("sized choice and prepended nothing", I + "gen/Maybe.hpp")])

p("C22", "Size and shrink controls affect only what they name",
  "Resizing, scaling and size-dependent construction make the wrapped generator behave exactly as if it had been called at the given size with the same random state; removing shrinks keeps the value and drops all shrinks at every level, added shrinks come after the regular ones at every node, and lazy and constant generators are transparent. Naming changes only the name, and nested controls compose as function composition of their sizes.",
  ["programs", "inputs"], "All nestings of the controls over arbitrary generators, factors, sizes and random states.",
  "Tests check each control alone at one size.",
  [I + "gen/Transform.hpp", I + "gen/Create.hpp", I + "Gen.hpp", I + "shrinkable/Transform.hpp"],
  [("size substitution", I + "gen/Transform.hpp"), ("post-order shrink addition", I + "shrinkable/Transform.hpp postShrink")])

p("C23", "Lazy sequence operations agree with their list meaning",
  "For every finite sequence and every combinator (map, filter, take, drop, take-while, drop-while, concatenate, join, zip, cast, map-maybe, iterate, cycle, ranges, containers), the produced elements equal the list computed eagerly, end stays ended, and aggregate queries (length, all, any, contains, equality, n-th, last, for-each) agree with lists. Copies taken at any point continue independently from that point, and elements of a source are read lazily, no earlier than needed.",
  ["programs", "histories"], "All compositions of combinators over arbitrary lists, with copies and moves taken at arbitrary positions.",
  "Tests check each combinator with sampled lists; compositions with copies mid-iteration are not covered.",
  [I + "Seq.hpp", I + "seq/Create.hpp", I + "seq/Transform.hpp", I + "seq/Operations.hpp", I + "seq/SeqIterator.hpp"],
  [("polymorphic sequence with deep copy", I + "Seq.hpp"), ("combinator implementations", I + "seq/Transform.hpp")])

p("C24", "Shrink tree operations agree with a reference tree",
  "For every shrink tree, map, bind, filter, pairing, constant, appended shrinks and recursive shrinking produce exactly the tree given by their definition over an explicit rose tree, finding a local minimum returns a satisfying value with no satisfying immediate shrink, and walking a path succeeds exactly when every index exists and then returns that node. Equality compares whole trees, and all-nodes checks visit every node.",
  ["programs", "inputs"], "All finite rose trees and compositions of operations, all paths including invalid ones.",
  "Tests use fixed small trees per operation.",
  [I + "shrinkable/Transform.hpp", I + "shrinkable/Operations.hpp", I + "shrinkable/Create.hpp", I + "Shrinkable.hpp"],
  [("lazy tree of shrinks", I + "Shrinkable.hpp"), ("path walking and local minimum", I + "shrinkable/Operations.hpp")])

p("C25", "Shrinkers propose only valid, simpler values and can reach the minimum",
  "For every value, the chunk remover yields each distinct contiguous removal from largest to smallest without repeats or the original, the element shrinker yields exactly the results of replacing one element by one of its shrinks in order, and the towards, integer, real, boolean and character shrinkers yield values strictly simpler than the input and never the input itself. Greedy use of them terminates and finds the boundary of any monotone predicate on integers.",
  ["inputs"], "All integer values and targets of all widths including extremes, reals including special values, all collections and element shrinkers.",
  "Tests sample; extremes of width and sign and large collections are rare.",
  [I + "shrink/Shrink.hpp", I + "shrink/Shrink.h"],
  [("halving towards target", I + "shrink/Shrink.hpp TowardsSeq"), ("chunk and element sequences", I + "shrink/Shrink.hpp")])

p("C26", "Values picked inside a body replay and shrink consistently",
  "For every body that picks values from generators, with later picks depending on earlier ones, each produced value is what the body computes from the picks recorded for it, each pick is a value of its generator, and shrinking changes one pick at a time to one of its own shrinks while earlier picks stay the same. Re-evaluating a produced value any number of times yields the same result and picks, and picking outside a body is refused.",
  ["programs", "inputs"], "All bodies with data-dependent numbers, kinds and order of picks, arguments as well as explicit picks, nested bodies, and all shrink paths.",
  "Tests use fixed bodies; re-running a body whose later picks vanish, change type or multiply after an earlier one shrinks is not explored.",
  [I + "gen/Exec.hpp", I + "gen/detail/ExecRaw.hpp", I + "gen/detail/Recipe.h", "src/gen/detail/ExecHandler.cpp", "src/gen/detail/Recipe.cpp", I + "gen/detail/ShrinkValueIterator.hpp"],
  [("recipe of ingredients replayed in order", I + "gen/detail/ExecRaw.hpp")])

p("C27", "Dynamic scoping survives nesting, exceptions and nested properties",
  "For every nesting of bindings, fresh scopes and exceptional exits, reading an implicit parameter yields the innermost live binding of the current scope or the default, and leaving restores exactly what was visible before. Consequently properties run inside properties, or bodies nested in bodies, log, tag, assert and pick independently and leave the outer case's results unaffected.",
  ["histories", "programs"], "All nestings and unwind orders of bindings and scopes over several parameters, and all nestings of properties and bodies with any outcome.",
  "Tests nest two or three levels in fixed order.",
  [I + "detail/ImplicitParam.h", I + "detail/ImplicitParam.hpp", "src/detail/ImplicitParam.cpp", "src/detail/PropertyContext.cpp", I + "detail/Property.hpp"],
  [("binding stack tagged by scope level", I + "detail/ImplicitParam.hpp")])

p("C28", "Generated command sequences are valid from the initial state at every shrink",
  "For every model, command set and initial state, each generated command sequence and each value in its shrink tree has every command's preconditions satisfied in the model state it is applied to, never exceeds the size by more than one in length, and uses only commands from the supplied generator. Shrinks remove commands or shrink single commands, regenerating one only when it became invalid, greedy shrinking of an injected fault yields a sequence from which no single command can be removed while staying valid and failing, and generation that cannot find valid commands fails instead of returning an invalid sequence.",
  ["programs", "histories", "inputs"], "All small model machines with state-dependent commands and preconditions, all sizes, random states and shrink paths.",
  "Tests use a couple of fixed models and mostly top-level shrinks.",
  [I + "state/gen/Commands.hpp", I + "state/gen/ExecCommands.hpp", I + "state/Commands.hpp", I + "state/Command.hpp"],
  [("valid prefix tracking while shrinking", I + "state/gen/Commands.hpp")])

p("C29", "Running commands keeps model and system in lockstep and reports divergence",
  "For every command list, running applies each command exactly once in order to the system, passing the model state that results from applying all earlier commands, applying them to a model gives that same final state, and the validity query is true exactly when each precondition holds in its own pre-state. A stateful check passes exactly when no generated sequence makes the system diverge from its model, and otherwise reports a valid failing sequence.",
  ["histories", "programs"], "All command lists over small machines, initial states given as values or makers, faults in the system at any step, and non-copyable models.",
  "Tests use short fixed lists.",
  [I + "state/Commands.hpp", I + "state/State.hpp", I + "state/Command.hpp"],
  [("runAll/applyAll/isValidSequence", I + "state/Commands.hpp"), ("stateful check", I + "state/State.hpp")])

p("C30", "Optional, variant and type-erased values behave as regular values",
  "For every history of construction, copy, move, assignment, swap-like exchange, reset and access, including when the wrapped type's operations throw, the library's optional, variant and any types hold exactly the value a reference model holds, destroy each wrapped object exactly once and leak none. Equality, matching and type queries agree with the model.",
  ["histories", "fault_sequences"], "All operation histories over several objects with instance counting and injected exceptions at any copy or move.",
  "Tests check each operation alone; exception safety and assignment between different alternatives in long histories are not covered.",
  [I + "Maybe.hpp", I + "detail/Variant.hpp", I + "detail/Any.hpp"],
  [("manual storage management", I + "Maybe.hpp, detail/Variant.hpp"), ("type-erased holder", I + "detail/Any.hpp")])

p("C31", "Displayed values faithfully show structure and contents",
  "For every value of a supported type, its display is the documented rendering built from the displays of its parts: containers list all elements in order within their brackets, tuples and pairs list all members, optional values and pointers show their content or absence, and strings show printable characters with escapes for the rest so that differing strings display differently. Display never alters the value, and user overrides and stream operators take precedence everywhere, including nested inside containers.",
  ["inputs", "programs"], "All nested combinations of supported types and all byte strings.",
  "Tests show a few literals per type.",
  [I + "Show.hpp", "src/Show.cpp", I + "detail/ShowType.hpp"],
  [("overload selection", I + "Show.hpp"), ("string escaping", "src/Show.cpp")])

p("C32", "Result messages state the verdict, counts, counterexample and cause",
  "For every result, the printed report names the right verdict with the number of tests and shrinks, lists every counterexample entry in order with its type or name and value, includes the failure or give-up description, and prints the distribution; verbose progress prints one mark per case and per tried shrink with the right symbol. The boolean outcome of a check is true exactly for success.",
  ["inputs", "programs"], "All results with arbitrary counts, descriptions, counterexamples and distributions, and all event histories of the console listener.",
  "Tests compare fixed strings.",
  ["src/detail/Results.cpp", "src/detail/LogTestListener.cpp", I + "Check.hpp", "src/detail/MulticastTestListener.cpp"],
  [("message printing", "src/detail/Results.cpp printResultMessage"), ("progress marks", "src/detail/LogTestListener.cpp")])

p("C33", "Generators, trees and sequences are memory safe under any object lifetime",
  "For every history of creating, copying, moving, assigning, advancing and destroying generators, shrink trees and lazy sequences, including using parts after the whole they came from is gone, no freed memory is touched, moved-from and self-assigned objects stay usable as the value they hold, and every user object is destroyed exactly once. Shared immutable parts never expose a change through another holder.",
  ["histories"], "All interleavings of lifetime operations over a pool of generators, trees and sequences, with user callables that own state.",
  "Tests keep parents alive while using children and run without sanitizers.",
  [I + "Gen.hpp", I + "Shrinkable.hpp", I + "Seq.hpp", I + "gen/Container.hpp", I + "gen/detail/ExecRaw.hpp"],
  [("reference counted immutable implementations", I + "Shrinkable.hpp, Gen.hpp"), ("owned polymorphic sequences", I + "Seq.hpp")])

p("C34", "Test-framework adapters report exactly the property's verdict",
  "For every property outcome, the Google Test, Boost Test, Catch and doctest adapters make the framework test pass exactly when the property succeeds and fail on falsification, giving up or error, with the report in the failure message. Fixture-based properties get a freshly constructed fixture with set-up and tear-down run once around every case, and mock failures reported during a case fail that case and are shrunk like any other failure.",
  ["programs", "configurations"], "All outcome scripts per adapter, with and without fixtures and arguments.",
  "Only a small mock test and uncompiled or unregistered examples exist; adapters' verdict propagation is untested.",
  ["extras/gtest/include/rapidcheck/gtest.h", "extras/boost_test/include/rapidcheck/boost_test.h", "extras/catch/include/rapidcheck/catch.h", "extras/doctest/include/rapidcheck/doctest.h", "extras/gmock/include/rapidcheck/gmock.h", I + "detail/ExecFixture.h"],
  [("verdict translation", "extras/*/include"), ("fixture lifecycle", I + "detail/ExecFixture.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
