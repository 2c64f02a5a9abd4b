#!/usr/bin/env python3
# Writes properties.jsonl.
import json, os
D = "pkg/dag/dag.go"
S = "pkg/dag/set.go"
E = "pkg/etx/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("D01", "The graph never has a cycle",
 "Whatever sequence of operations is applied to a graph, following edges never leads from a vertex back to itself. AddEdge accepts an edge between two different known vertices exactly when it is new and the target does not already lead to the source; a refused edge is not added.",
 ["histories"], "every sequence of public operations (additions, deletions, reductions and the queries that fill caches in between), every map iteration order",
 "The tests build a handful of fixed graphs; a stale descendant cache or a check that looks only one level down shows after specific mixes of deletions, queries and additions.",
 [D], [("AddEdge looks the source up among the cached descendants of the target", D+": AddEdge"), ("cache invalidation in AddEdge, DeleteEdge, DeleteVertex, ReduceTransitively", D)],
 ["AddEdge", "GetChildren", "IsEdge"], [{"name": "descendantsCache", "meaning": "memoised descendants per vertex", "where": D}])
prop("D02", "Structural queries answer from the history",
 "Order, size, vertices and their values, roots, leaves, parents, children, IsEdge and the printed form are exactly what the successful additions, deletions and reductions so far imply. A vertex deleted and added again starts with its new value and no edges.",
 ["histories"], "every sequence of public operations, every map iteration order, several ID types",
 "Tests check each query after one short history; the inbound and outbound views can disagree only after particular deletions or reductions.",
 [D], [("two edge maps kept in step by every mutation", D)], ["GetOrder", "GetSize", "GetVertices", "GetVertex", "GetRoots", "GetLeaves", "GetParents", "GetChildren", "IsEdge", "String"])
prop("D03", "Ancestors and descendants are the exact closure",
 "After any history, GetAncestors and GetDescendants return exactly the vertices that reach, respectively are reached from, the given one, with their current values. The answer does not depend on which queries were made before.",
 ["histories"], "every sequence of mutations and closure queries, every map iteration order",
 "Both are memoised per vertex and invalidated piecemeal, so a wrong answer needs a query, then a mutation elsewhere, then a query; tests sample few such triples.",
 [D], [("ancestor and descendant caches and their invalidation", D)], ["GetAncestors", "GetDescendants"],
 [{"name": "ancestorsCache, descendantsCache", "meaning": "memoised closures", "where": D}])
prop("D04", "Refused operations say why and change nothing",
 "An operation on an empty or unknown ID, a duplicate vertex or edge, a missing edge, identical end points or a loop is refused with the documented error for that condition, recognisable with errors.Is (when several conditions hold, with any of theirs), and leaves everything observable about the graph as it was. Every other operation succeeds.",
 ["histories", "inputs"], "every operation with every combination of empty, unknown and known IDs, in every reachable graph state",
 "Tests try each error once on one graph; they do not compare the graph before and after, nor reach the states where two conditions meet.",
 [D, "pkg/dag/errors.go"], [("checkVertexID and checkEdgeIDs before any change", D)], ["every public operation of the graph"])
prop("D05", "Transitive reduction keeps reachability with least edges",
 "ReduceTransitively removes exactly the edges whose target stays reachable over a longer path, so that ancestors and descendants of every vertex, all vertices and their values stay the same. Reducing twice is the same as reducing once, and all queries agree with the reduced edges afterwards.",
 ["histories", "inputs"], "every graph, every state of the caches when the reduction starts, every map iteration order",
 "Tests reduce two small graphs with cold caches.",
 [D], [("removal of children found among the descendants of other children; flush of the caches", D+": ReduceTransitively")], ["ReduceTransitively and every query after it"])
prop("D06", "Walks visit every vertex once, breadth first",
 "A walker drained to its end, and the ordered list of ancestors or descendants, yields each ancestor (descendant) of the start exactly once, nothing else, in order of non-decreasing distance from the start, and then ends by closing the channel. This holds in every schedule and map iteration order, also for several walks of one graph at the same time.",
 ["schedules", "inputs"], "every graph, start and direction; every interleaving of walker and consumers; every map iteration order",
 "Map order and goroutine schedules are random: a test sees one of them per run and the existing ones only compare sets.",
 [D], [("fifo queue with a visited set in a goroutine", D+": walkAncestors, walkDescendants")], ["AncestorsWalker", "DescendantsWalker", "GetOrderedAncestors", "GetOrderedDescendants"])
prop("D07", "A walk can be stopped at any moment",
 "A consumer may send one stop on the signal channel before the first vertex, between vertices, while one is on offer or after the end; the send never blocks or panics. At most one more vertex is delivered, the ID channel is closed, the walker's goroutine ends even when the consumer no longer receives, and other walks and later walks of the graph are not affected.",
 ["schedules"], "every interleaving of the walker with a consumer stopping at any point, draining or leaving, from the same or another goroutine",
 "The race between stop and delivery depends on the schedule; a leaked goroutine or a panic in another goroutine escapes the assertions of a test.",
 [D], [("buffered signal channel polled before and during each delivery", D+": walkAncestors, walkDescendants")], ["both channels of the walkers", "goroutines left behind"])
prop("D08", "Returned collections are the caller's own",
 "Every map and slice returned by the graph is a snapshot: changing it changes neither the graph nor any later answer, and later changes of the graph do not change it.",
 ["histories"], "every query in every reachable state, followed by writes to the result or by any operation on the graph",
 "Tests only read the results; sharing shows when a result is written to, or kept over a mutation, in a specific cache state.",
 [D], [("results are copied out of the internal maps and caches", D+": copyMap, loadFromCache")], ["maps and slices returned by every query"])
prop("D09", "Set operations obey set algebra",
 "Add, Delete, Includes, Intersection, Difference, Filter, List and Copy give exactly the elements of the corresponding mathematical operation for all operands, nil, empty and equal ones included. They do not change their operands, and results share nothing with them.",
 ["inputs", "histories"], "all pairs of sets, all predicates, all sequences of Add and Delete; every map iteration order",
 "Tests sample a few sets; operand swapping by size, nil handling and aliasing depend on the relation of the two operands.",
 [S], [("Set as a map", S)], ["methods of Set"])

prop("P01", "Parsing never panics or hangs",
 "For every byte sequence, Parse, ParseString and ParseBytes return in time: either a program and no error or an error and no panic, crash, stack overflow or endless loop.",
 ["inputs"], "all byte and token sequences, valid or not, including truncated ones and deep nesting",
 "Tests feed a few hundred well-formed snippets; grammar recursion, heredoc and interpolation states fail on odd combinations.",
 [E+"lexer.go", E+"parser.go"], [("stateful lexer and recursive grammar", E+"lexer.go")], ["Parse", "ParseString", "ParseBytes"])
prop("P02", "The tree contains everything written, nothing else",
 "When a source is accepted, its tree accounts for every significant token of the source, in order, with its spelling, and contains none that was not written.",
 ["inputs"], "all accepted sources up to a length over an alphabet of all token kinds, and all programs of the generator",
 "A grammar alternative that swallows or reorders tokens still parses; tests compare trees for chosen sources only.",
 [E+"parser.go", E+"expr.go", E+"value.go"], [("captures of the grammar", E)], ["the tree returned by ParseString against the source"])
prop("P03", "Every construct parses to its tree in any layout",
 "Every program built from the language's constructs (attributes with = or :, blocks with labels, declarations, inputs and outputs, functions, lists, maps, types, conditionals, switches, comments), in any nesting, is accepted and parsed to the tree that the construct describes. Spaces, line breaks, trailing separators and comments where the grammar permits them do not change the rest of the tree.",
 ["programs"], "all programs of a grammar-directed generator: every construct in every context, every optional part present or absent, lists of many lengths, deep nesting, several layouts",
 "Tests parse each construct once or twice in isolation with one layout.",
 [E], [("grammar of the struct tags", E)], ["ParseString and the fields of the tree"])
prop("P04", "Operators bind by the documented precedence",
 "In every expression the operators group as the README's table says: postfix, then unary, multiplicative, additive, shift, relational, equality, &, ^, |, &&, ||, and the conditional last; parentheses override. Operators of different levels never swap, and each operator is reported as the one written.",
 ["programs"], "every pair and triple of operators (including unary, postfix, member access, calls, indexes and parentheses) in every order, in every context of an expression",
 "Tests contain one expression per level, almost never two neighbouring levels together.",
 [E+"expr.go", E+"README.md"], [("one grammar rule per level", E+"expr.go")], ["tree of the expression"])
prop("P05", "Number literals keep their value and spelling",
 "Every number literal (decimal integers, fractions, exponents, octal, hexadecimal, binary, of any length) yields the value it denotes in its base: exactly when it is written without an exponent and is an integer or a dyadic fraction, and to within double precision otherwise. It prints as a literal of the same value. Digits beyond 64 bits are not lost.",
 ["inputs"], "all literals up to a length over the literal alphabet, plus long ones, with every base and exponent form, in every context of a literal",
 "Tests parse a few dozen small literals.",
 [E+"value.go", E+"lexer.go", E+"utils.go"], [("lexer rules for the number forms; big.Float with a precision by length", E+"value.go: ValueNumber")], ["ValueNumber.Value, Source and String"])
prop("P06", "Strings and heredocs keep their content",
 "Quoted strings and heredocs (plain and <<- indented) yield exactly the text between their delimiters, fragment by fragment: literal text, escapes, ${...} interpolations and %{...} directives in order, with lone $, % and other quote characters being plain text. A heredoc ends at the line holding its own delimiter, not at a line that merely starts with or contains it.",
 ["inputs"], "all string and heredoc bodies up to a length over an alphabet of quotes, escapes, $, %, braces, letters, newlines and delimiter look-alikes",
 "Tests cover a dozen strings; the lexer changes state at every special character and the combinations are many.",
 [E+"lexer.go", E+"value.go"], [("stateful lexer: String, Heredoc and Expr states with a back-reference to the delimiter", E+"lexer.go")], ["fragments of ValueString and ValueHeredoc"])
prop("P07", "Positions point at the source",
 "The position of every node is the one of its first token in the source (offset in bytes, line and column in characters from 1), whatever comes before it: blank lines, comments, multi-byte characters, strings and heredocs. (Number and boolean literals have no position of their own: the value that holds them has it.)",
 ["programs"], "every construct after every kind of predecessor and in several layouts",
 "Tests clear positions before comparing trees.",
 [E+"lexer.go", E+"parser.go"], [("Pos fields filled by the parser", E)], ["Pos of the nodes"])
prop("P08", "Children and Parent describe the tree",
 "For every parsed program, walking Children from the root reaches every node of the tree exactly once in source order and contains no nil, and the Parent of every node reached that way is the node it was reached from. After a tree has been cloned or edited, UpdateParentRefs makes this true again.",
 ["programs"], "every construct in every context with every optional part present or absent",
 "Tests build single nodes by hand; parents are never checked over whole programs.",
 [E], [("Children of every node type and the parent links set after parsing", E)], ["Children", "Parent", "UpdateParentRefs"])
prop("P09", "Clone is an equal, independent tree",
 "Cloning any node gives a tree that is equal to the original in every field that was parsed (kind, content, position, spelling) and shares no mutable part with it: changing either never shows in the other.",
 ["programs"], "every construct in every context with every optional part present or absent",
 "Tests clone one or two instances per type and compare for equality, hardly for sharing below the top level.",
 [E], [("Clone of every node type", E)], ["Clone"])
prop("P10", "All ways to parse agree",
 "Parse on a reader, ParseString and ParseBytes give equal trees or the same error for the same text, however the reader divides it into chunks. An error of the reader is reported rather than taken for the end of the text.",
 ["inputs", "fault_sequences"], "every division of the text into reads (one byte at a time, every split point, empty reads, data together with EOF), every point at which the reader fails",
 "Tests only use strings and one reader.",
 [E+"parser.go"], [("thin wrappers over one parser", E+"parser.go")], ["Parse", "ParseString", "ParseBytes"])
prop("P11", "Formatted programs parse back to the same tree",
 "Printing the tree of any accepted program never panics and gives a source that is accepted and whose tree equals the original one, up to blank lines, layout and redundant parentheses.",
 ["programs"], "every construct in every context, except the listed findings (heredocs and multi-line tokens inside indented constructs, member access on a parenthesised literal)",
 "Tests compare the printed form of chosen nodes with fixed strings and never parse it again.",
 [E], [("String and FormattedString of every node type", E)], ["String of the tree, parsed again"])
prop("P12", "Formatting is idempotent",
 "Formatting what the formatter printed gives the same text again, byte for byte.",
 ["programs"], "every construct in every context, with the exceptions of P11",
 "Tests never format twice.",
 [E], [("String and FormattedString of every node type", E)], ["String of the tree of a formatted program"])
prop("P13", "Malformed sources are rejected with a location",
 "A source that is not a program of the language is rejected: removing, doubling, replacing or truncating tokens so that the grammar is broken yields an error and no tree is passed off as valid. The error says where, at a position inside the source.",
 ["inputs"], "every single-token deletion, duplication, insertion, replacement and truncation of the generated programs that leaves the language as defined by an independent recogniser",
 "Tests contain few negative cases.",
 [E+"parser.go"], [("participle grammar", E)], ["error of ParseString, its position"])
prop("P14", "Parsing and printing have no side effects",
 "The result of a call depends on its argument alone: it does not depend on earlier calls, nor on calls running at the same time in other goroutines, and printing, walking, cloning and looking up parents leave the tree unchanged.",
 ["histories", "schedules"], "every ordered pair and triple of calls from a set of programs and errors; every interleaving of two concurrent calls within a preemption bound; every read-only operation on every construct",
 "Tests run one call at a time on fresh state.",
 [E+"parser.go", E+"utils.go"], [("a parser built per call, no shared state", E+"parser.go")], ["results of repeated and concurrent calls"])
prop("P15", "Comments survive parsing and formatting",
 "Every comment of an accepted program appears in its tree, with its text, exactly once and in order, and is still there, with the same text and order, in the formatted program.",
 ["programs"], "comments of both kinds, single and in runs, in every position where they are permitted",
 "Tests check comments in a few positions and only the tree, not the printed form of whole programs.",
 [E+"comment.go"], [("comment items of the grammar", E+"comment.go")], ["Comment nodes of the tree and of the formatted program"])
prop("P16", "The JSON form holds the whole tree",
 "Every tree that was parsed from UTF-8 text can be written as JSON with encoding/json, and reading it back gives a tree that is equal in every field that was parsed; only positions and parents are left out, and number values keep double precision (their spelling is kept).",
 ["programs"], "every construct in every context with every optional part present or absent",
 "Tests never serialise a tree, although every field of every node has its JSON name; a doubled name, a lost field or a marshalling method that forgets a case shows only for trees that hold that part.",
 [E], [("JSON names of all fields of all nodes", E)], ["json.Marshal and json.Unmarshal of a tree"])
prop("P17", "The formatter has one layout",
 "Programs with the same tree format to the same text, blank lines aside, however they were laid out; positions and parents do not matter, so that a tree put together by hand formats like a parsed one. In the formatted text every line is indented by one tab for each construct that is open around it, no line ends in white space, and the text ends with exactly one line break (the inside of multi-line strings and comments is their own).",
 ["programs"], "every construct in every context in every pair of layouts, with the exceptions of P11",
 "Tests format hand-built nodes without positions, each on its own; how layouts, positions and nesting reach the printed form is not sampled.",
 [E], [("FormattedString of every node type; indentation of text", E+"utils.go: indent")], ["FormattedString of the tree"])
prop("P18", "Every part of a tree prints as itself",
 "FormattedString of any part of a parsed tree (item, statement, parameter, type, expression of any level, value, list or map item, key, string or heredoc fragment, comment) never panics and gives a source text that, put where such a part can stand in a program, is accepted and reads back as an equal part, up to blank lines, layout and redundant parentheses. A Lambda prints its comment, its parameters and its expression so that each reads back.",
 ["programs"], "every part of every accepted program: every construct in every context, every layout, with the exceptions of P11",
 "Tests print a few hand-built nodes and compare texts; nothing reads a printed part back, and several of these methods are not used when a whole program is printed.",
 [E], [("FormattedString of every node type", E)], ["FormattedString of each node"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
