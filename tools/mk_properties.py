#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit, always valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("P01", "Serialising produces exactly the OSC bytes",
  "Serialising an in-memory bundle, message or value yields exactly the OSC layout: header, big-endian sizes and numbers, NUL-terminated strings padded to four bytes, a comma-led type string, and nothing left over from earlier values. Every announced size equals the number of bytes written, the total is a multiple of four, and serialising does not change the object.",
  ["inputs"], "every bundle, message and value buildable through the API: all types, boundary numbers, any string bytes, blobs of every length, nested sub-bundles, values overwritten before",
  "The tests serialise a handful of fixed bundles and compare no bytes with an independent encoder.",
  ["osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_atom_s.c", "osc_byteorder.h", "osc_util.c"],
  [("bundle serialiser", "osc_bundle_u.c:osc_bundle_u_nserialize"), ("message serialiser", "osc_message_u.c:osc_message_u_nserialize"), ("value serialiser", "osc_atom_u.c:osc_atom_u_nserialize"), ("padding", "osc_util.c")])
p("P02", "Deserialise and serialise are inverse",
  "Deserialising any well-formed serialised bundle or message gives an in-memory object with the same messages, order, addresses, types and values, and serialising that object gives back the same message bytes. Nested sub-bundles, blobs, empty strings and argument-less messages survive unchanged.",
  ["inputs"], "every well-formed serialised bundle up to the generated size, whatever its header timetag",
  "Tests check that parsing and printing a few examples does not fail; they never compare a decode/encode round trip.",
  ["osc_bundle_s.c", "osc_message_s.c", "osc_atom_s.c", "osc_bundle_u.c"],
  [("deserialisers", "osc_bundle_s.c:osc_bundle_s_deserialize, osc_message_s.c:osc_message_s_deserialize, osc_atom_s.c:osc_atom_s_deserializeInto"), ("serialisers", "osc_bundle_u.c:osc_bundle_u_serialize")])
p("P03", "The bundle sanity check is exact on framing and never reads outside the buffer",
  "For any byte buffer, the sanity check accepts it exactly when it starts with the bundle identifier, is at least a header long, and consists of messages whose sizes tile the rest of the buffer, each at least four bytes long and starting with '/'; otherwise it returns the error for the first defect. It never reads outside the buffer, for any size field.",
  ["inputs"], "arbitrary byte buffers: valid bundles, truncations at every length, corrupted and hostile size fields, random bytes",
  "Malformed input is not tested at all, and over-reads do not show in a plain build.",
  ["osc_error.c"], [("sanity check", "osc_error.c:osc_error_bundleSanityCheck, osc_error_msgSanityCheck")])
p("P04", "Serialised and in-memory views of a bundle read the same",
  "For every well-formed bundle, the accessors on the serialised bytes and the accessors on its in-memory form agree: message count and order, addresses, type strings, argument counts, and the n-th argument by index or by iterator. Out-of-range indices yield nothing, iterators can be reset, and reading never changes the bytes.",
  ["inputs"], "every well-formed bundle, every message and argument index including out-of-range ones, iterators abandoned and reset at any point",
  "Tests touch a few accessors on fixed messages.",
  ["osc_bundle_s.c", "osc_message_s.c", "osc_message_u.c", "osc_bundle_iterator_s.c", "osc_bundle_iterator_u.c", "osc_message_iterator_s.c", "osc_message_iterator_u.c"],
  [("iterators", "osc_bundle_iterator_s.c, osc_message_iterator_s.c, osc_bundle_iterator_u.c, osc_message_iterator_u.c"), ("argument access", "osc_message_s.c:osc_message_s_getArg, osc_message_u.c:osc_message_u_getArg")])
p("P05", "Reading a value as another type follows one conversion table",
  "Reading a value of any type as any numeric type, boolean or string gives the C conversion of the stored value (strings are parsed, true is 1, false and nil are 0), and the serialised and in-memory forms of the same value give the same answer. An 8-bit integer read from a string is its first character. Negating a value gives its arithmetic negative in the signed type of the same width, wrapping at the extreme.",
  ["inputs"], "every value type and payload in the target's range, crossed with every getter, on both representations",
  "Tests read values almost only as the type they were stored as.",
  ["osc_atom_s.c", "osc_atom_u.c"], [("getters", "osc_atom_u.c:osc_atom_u_get*, osc_atom_s.c:osc_atom_s_get*")])
p("P06", "Address pattern matching follows the OSC pattern language",
  "Matching a pattern against an address reports a complete match exactly when the pattern language ('?', '*', '[a-z]', '[!a-z]', '{x,y}', per segment) says so, and for partial matches reports how far pattern and address matched at a segment boundary. Malformed patterns or addresses without a leading slash are reported as errors, and every call terminates.",
  ["inputs"], "patterns from the whole grammar and addresses near them, matching, non-matching and partially matching; malformed patterns",
  "osc_match_test has about a hundred fixed pairs; the pattern language is unbounded.",
  ["osc_match.c"], [("matcher", "osc_match.c:osc_match")])
p("P07", "Address lookup in a bundle finds exactly the matching messages",
  "Looking up an address in a bundle returns, in order, exactly the messages whose address matches it, either completely or (when partial matches are asked for) up to a segment boundary; existence, boundness (a match with arguments), first full match and first equal address agree with that list. A malformed segment (a bracket never closed or never opened) matches nothing. The serialised and in-memory forms give the same answer.",
  ["inputs"], "bundles with colliding, nested, repeated and pattern addresses; lookups of plain addresses and prefixes, full and partial; patterns with an unmatched bracket",
  "Tests look up one or two present addresses.",
  ["osc_bundle_s.c", "osc_bundle_u.c"], [("lookup", "osc_bundle_s.c:osc_bundle_s_lookupAddress, osc_bundle_s_addressExists, osc_bundle_s_addressIsBound; osc_bundle_u.c same names")])
p("P08", "Bundle union, intersection and difference are set operations on addresses",
  "Union of serialised bundles keeps every message of the first and adds those of the second whose address is not yet present (the in-memory union keeps the first message of each address); intersection keeps the messages of the first whose address occurs in the second; difference keeps those of each whose address does not occur in the other. Results are well-formed, contain no new duplicates, and the inputs are unchanged.",
  ["inputs"], "pairs of bundles with overlapping, repeated and disjoint plain addresses, empty bundles, absent bundles, both representations",
  "Not covered by any passing test.",
  ["osc_bundle_s.c", "osc_bundle_u.c"], [("set operations", "osc_bundle_s.c:osc_bundle_s_union, osc_bundle_s_intersection, osc_bundle_s_difference; osc_bundle_u.c:osc_bundle_u_union, osc_bundle_u_intersection")])
p("P09", "An in-memory bundle behaves as an ordered list of messages under any edits",
  "After any sequence of adding (plain, copying, without duplicates, from a list or array), replacing, removing, clearing and copying, a bundle's messages, their order and count equal those of a list given the same operations. Copies share nothing with the original, and the bundle always serialises to that list.",
  ["histories"], "operation sequences over messages with colliding addresses",
  "Tests build bundles by appending only.",
  ["osc_bundle_u.c"], [("edits", "osc_bundle_u.c:osc_bundle_u_addMsg, _addMsgWithoutDups, _replaceMessage, _removeMsg, _removeMessage, _clear, _copy")])
p("P10", "A message's arguments behave as a list under any edits",
  "After any sequence of appending, prepending, inserting at a position, removing, clearing, renaming and copying, a message's arguments, their order, types, values and count equal those of a list given the same operations, seen forwards, by index and on the wire.",
  ["histories"], "operation sequences with every value type and every position",
  "Tests append; insertion, prepending and removal are not tested.",
  ["osc_message_u.c"], [("edits", "osc_message_u.c:osc_message_u_appendAtom, _prependAtom, _insertAtom, _removeAtom, _setArg and the typed variants")])
p("P11", "Edits of a serialised bundle keep it well-formed and do just that edit",
  "Appending, removing, replacing, renaming, concatenating and wrapping messages in serialised bundles leaves a well-formed bundle that holds exactly the messages a list given the same operations would hold, with the header and untouched messages byte-identical.",
  ["histories"], "operation sequences over serialised bundles with shorter and longer replacements, repeated and pattern addresses",
  "Tests do not edit serialised bundles and never check the bytes afterwards.",
  ["osc_bundle_s.c", "osc_message_s.c"], [("edits", "osc_bundle_s.c:osc_bundle_s_appendMessage, _removeMessage, _replaceMessage, _wrapMessage, _concat; osc_message_s.c:osc_message_s_renameCopy")])
p("P12", "Explode and flatten convert between flat addresses and nested bundles losslessly",
  "Exploding a bundle nests each message under sub-bundles by the leading segments of its address, to at most the given depth; flattening a nested bundle joins the segments back. When no address is repeated or a prefix of another, flattening an exploded bundle gives the original messages and values, grouped by common prefix; both results are always well-formed.",
  ["inputs"], "bundles with shared and unshared address prefixes at several depths, every depth limit, several separators",
  "osc_explode_test runs one example and checks only that it exits.",
  ["osc_bundle_u.c", "osc_bundle_s.c"], [("explode and flatten", "osc_bundle_u.c:osc_bundle_u_explode, osc_bundle_u_flatten")])
p("P13", "The printed form of a bundle parses back to the same bundle",
  "Formatting a bundle of at least one message as text and parsing that text gives a bundle with the same messages, order, addresses, argument counts and values: integers and strings (with any quotes, backslashes and punctuation) exactly, floating-point numbers to the printed digits, timetags to the printed fraction, nested bundles recursively.",
  ["inputs"], "bundles of every type with a textual form (no blobs, finite floats, printable 8-bit characters; addresses without white space, #, or a comma at the end)",
  "osc_test parses fixed lines; it does not compare a print/parse round trip.",
  ["osc_parser.y", "osc_scanner.l", "osc_strfmt.c", "osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c"],
  [("formatter", "osc_bundle_u.c:osc_bundle_u_nformat, osc_strfmt.c"), ("parser", "osc_parser.y:osc_parser_parseString, osc_scanner.l")])
p("P14", "Text formatting agrees with its announced size and with both representations",
  "The serialised and in-memory forms of a bundle print the same text, its length equals the announced size, and formatting into a buffer at least that large writes that text and a terminator and nothing beyond. Into a smaller buffer it writes as much of the text as fits with a terminator, and nothing beyond. The text itself is the documented layout: one message per line, arguments in brackets when there are several, nested bundles indented.",
  ["inputs"], "bundles, messages and values of every type, printed to an allocated string and to exact, larger and smaller buffers at several indentations",
  "No test looks at sizes or at bytes beyond the end of a buffer.",
  ["osc_strfmt.c", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_atom_s.c", "osc_atom_u.c"],
  [("nformat functions", "osc_bundle_s.c:osc_bundle_s_nformat, osc_bundle_u.c:osc_bundle_u_nformat, osc_strfmt.c")])
p("P15", "The line-based text form parses to the bundle it spells",
  "Parsing the line-based text form (one message per line, an address followed by whitespace-separated values, sub-bundles in brackets) yields exactly the messages and typed values written, in order.",
  ["inputs"], "generated texts of this form with random values, whitespace and nesting",
  "Only a few fixed lines are parsed by the tests, with no value compared.",
  ["osc_legacy_parser.y", "osc_legacy_scanner.l"], [("parser", "osc_legacy_parser.y:osc_legacy_parser_parseString"), ("scanner", "osc_legacy_scanner.l")])
p("P16", "Any text is parsed or cleanly rejected",
  "Parsing any text as a bundle, in either text form, terminates without touching memory it should not; it either reports an error or yields a bundle that serialises to well-formed bytes. A rejected text leaves no influence on the parse of the next one.",
  ["inputs"], "arbitrary byte strings, near-valid texts, truncated and mutated printed bundles",
  "Tests parse valid texts only.",
  ["osc_parser.y", "osc_scanner.l", "osc_legacy_parser.y", "osc_legacy_scanner.l"], [("parsers", "osc_parser.y, osc_legacy_parser.y"), ("scanners", "osc_scanner.l, osc_legacy_scanner.l")])
p("P17", "Copies are deep and independent",
  "A copy of a value, message, bundle, array or expression equals its source, and afterwards modifying or freeing either leaves the other unchanged and usable.",
  ["inputs", "histories"], "every copyable object over every value type; edits of the source and of the copy, and freeing in either order",
  "Tests free nothing and edit no copy.",
  ["osc_atom_u.c", "osc_message_u.c", "osc_bundle_u.c", "osc_bundle_s.c", "osc_atom_array_u.c", "osc_message_s.c", "osc_expr.c"],
  [("copies", "osc_atom_u.c:osc_atom_u_copyInto, osc_message_u.c:osc_message_u_deepCopy, osc_bundle_u.c:osc_bundle_u_copy, osc_bundle_s.c:osc_bundle_s_deepCopy, osc_atom_array_u.c:osc_atom_array_u_copy")])
p("P18", "Everything allocated through the API is released by its free functions",
  "After any sequence of API calls that frees what the caller owns exactly once, no heap memory allocated by the library remains and nothing was freed twice.",
  ["histories", "inputs"], "build, edit, overwrite, copy, serialise, deserialise, format, parse, query and evaluate sequences followed by frees",
  "The tests neither free nor measure memory.",
  ["osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_bundle_s.c", "osc_parser.y", "osc_mem.c"],
  [("ownership", "*_free functions of every module")])
p("P19", "Timetag arithmetic, order and encoding are consistent",
  "Adding timetags is exact 64-bit fixed-point addition and subtracting gives the exact absolute difference; comparison is the order of the 64-bit value; the header encoding is big-endian and round-trips; conversion to and from floating point is accurate to the resolution of the float and monotonic.",
  ["inputs"], "all pairs of timetags including carries, borrows, equal parts and the extremes",
  "Tests do not touch timetags.",
  ["osc_timetag.c"], [("arithmetic", "osc_timetag.c:osc_timetag_add, osc_timetag_subtract, osc_timetag_compare"), ("header", "osc_timetag.c:osc_timetag_encodeForHeader")])
p("P20", "ISO 8601 text of a timetag denotes the same instant",
  "Formatting a timetag gives the ISO 8601 UTC date and time of that instant by the proleptic Gregorian calendar counted from 1900, with microseconds, and parsing such a text (with or without fraction) gives the timetag of that instant.",
  ["inputs"], "every second of the 136-year range, biased to year, month, leap-day and midnight boundaries, and every fraction",
  "Tests do not format or parse dates.",
  ["osc_timetag.c", "contrib/strptime.c"], [("formatter", "osc_timetag.c:osc_timetag_nformat"), ("parser", "osc_timetag.c:osc_timetag_fromISO8601")])
p("P21", "The hash table behaves as a map",
  "After any sequence of stores, safe stores, removals, lookups, iterations and clears, the table answers as a map from key strings to values: replacing stores win, safe stores keep the first value, each live entry is visited once, and the destructor runs exactly once for every entry dropped.",
  ["histories"], "operation sequences over colliding and prefix-sharing keys, tables of any initial size, enough entries to force growth",
  "Only the function table of the expression language uses it in tests, and never removes.",
  ["osc_hashtab.c"], [("table", "osc_hashtab.c")])
p("P22", "The linked list behaves as a double-ended sequence",
  "After any sequence of prepends, appends, pops at either end or at an index, peeks, iterations, clones and clears, the list's contents, order and count equal those of a sequence given the same operations, and the destructor runs once for each element the list discards.",
  ["histories"], "operation sequences with indices in and out of range",
  "No test covers it.",
  ["osc_linkedlist.c"], [("list", "osc_linkedlist.c")])
p("P23", "Dispatch hands every message to exactly the selectors it matches",
  "Dispatching a bundle calls each matching selector once, with the completely and the partially matching messages in bundle order (with the matched part of the address stripped when asked and an address remains), and passes exactly the messages matched by no selector to the delegation method.",
  ["inputs", "configurations"], "selector tables and bundles over overlapping addresses and patterns, stripping on and off, all or chosen selectors",
  "No test covers dispatch.",
  ["osc_dispatch.c", "osc_vtable.c", "osc_match.c"], [("dispatch", "osc_dispatch.c:osc_dispatch, osc_dispatch_selectors")])
p("P24", "A query partitions a bundle's messages by selector",
  "Querying a bundle with a set of selectors gives, for each selector, the completely and the partially matching messages in bundle order (addresses stripped when asked) and, separately, exactly the messages no selector matched.",
  ["inputs", "configurations"], "selector sets and bundles over overlapping addresses and patterns, stripping on and off",
  "No test covers queries.",
  ["osc_query.c", "osc_rset.c"], [("query", "osc_query.c:osc_query_select"), ("result sets", "osc_rset.c")])
p("P25", "The vtable keeps selector, method and context together under any edits",
  "After any sequence of adding, re-adding, rebinding, renaming and calling entries, looking up a selector by name or index finds the entry last bound to it, calls reach that method with its context exactly once, and removed names are not found.",
  ["histories"], "operation sequences over colliding selectors, enough to make the table grow",
  "No test covers the vtable.",
  ["osc_vtable.c"], [("table", "osc_vtable.c:osc_vtable_addEntry, osc_vtable_renameEntry, osc_vtable_rebindSelector")])
p("P26", "Value arrays keep their contents under copying, resizing and conversion",
  "Arrays of values behave as vectors: elements are reachable by non-negative index and absent outside the range, copies and copies into another array at an offset carry exactly the source elements, resizing keeps the common prefix, and conversion to an array of numbers, booleans or a joined string equals converting each element.",
  ["histories", "inputs"], "arrays of every length and element type, all offsets and new sizes",
  "Arrays are only exercised indirectly.",
  ["osc_array.c", "osc_atom_array_u.c", "osc_atom_array_s.c"], [("arrays", "osc_array.c, osc_atom_array_u.c, osc_atom_array_s.c")])
p("P27", "Expression arithmetic is elementwise, typed and total",
  "In the expression language + - * / % ^ and the one- and two-argument mathematical functions act elementwise on lists (a single value is paired with every element, otherwise the shorter list decides the length) and equal the mathematical result. Sums, products and quotients of integers come in the wider operand's type, differences and remainders in int32 or int64; floating-point operands, ^ and the mathematical functions give floating-point results. Division by zero gives the string Inf and remainder by zero the left operand, never a crash.",
  ["programs", "inputs"], "generated expressions over bundles of numeric lists of every type",
  "About thirty fixed expressions are compared on their first line only.",
  ["osc_expr.c", "osc_expr_parser.y"], [("arithmetic", "osc_expr.c:osc_expr_2arg and the operator functions")])
p("P28", "Comparison, logic and conditionals decide as written and short-circuit",
  "Comparisons yield elementwise booleans by numeric or string order, exactly for integers of any width; && and || and their forms take booleans, evaluate left to right and skip what is not needed; if and ?: test the first element and evaluate exactly the chosen branch; boundness tests and defaults depend only on whether the address has a value.",
  ["programs", "inputs"], "generated boolean expressions with side-effecting operands, over bundles where addresses may be missing or empty",
  "Tests evaluate few comparisons and observe no skipped operand.",
  ["osc_expr.c", "osc_expr_parser.y"], [("comparisons and logic", "osc_expr.c:osc_expr_lt .. osc_expr_andalso, osc_expr_orelse, osc_expr_if")])
p("P29", "Operator precedence and associativity match the documented table",
  "An expression without parentheses evaluates to the same value and the same bundle as the fully parenthesised form given by the operator table, and as the equivalent function-call form. From loosest to tightest: = and op= (right), ?: (right), ||, &&, == !=, < > <= >=, + -, * / %, ^ (left), prefix - ! ?? and ??=, ++ --, [[ ]]. Number, string, character, hexadecimal, boolean and nil literals denote the value they spell.",
  ["programs"], "generated operator trees of every operator, printed with minimal parentheses, with full parentheses and as function calls",
  "Precedence is tested in a handful of lines.",
  ["osc_expr_parser.y", "osc_expr_scanner.l"], [("grammar", "osc_expr_parser.y precedence declarations"), ("scanner", "osc_expr_scanner.l")])
p("P30", "Assignments change exactly the assigned address",
  "An assignment, compound assignment, increment, or indexed assignment sets exactly the named message to the computed value (creating it at the end when absent), returns that value, and leaves every other message and the header byte-identical and in place; a program of several expressions is the sequence of them.",
  ["programs", "inputs"], "generated sequences of assignments over bundles with colliding addresses",
  "Tests compare one line of the output each.",
  ["osc_expr.c"], [("assignment", "osc_expr.c:osc_expr_assign, osc_expr_specFunc_assign, assigntoindex"), ("message replacement", "osc_bundle_s.c:osc_bundle_s_replaceMessage")])
p("P31", "Lambda, map, reduce and apply obey beta-reduction with lexical scope",
  "Applying a lambda gives the value of its body with the parameters replaced by the arguments; inner parameters shadow outer ones and do not leak; map, the two reductions (which carry the first element of each result) and apply equal the corresponding sequence of applications.",
  ["programs", "inputs"], "generated lambda expressions, nested and shadowing, with generated argument lists",
  "No test defines a lambda.",
  ["osc_expr.c"], [("lambda", "osc_expr.c:osc_expr_evalInLexEnv, osc_expr_apply, osc_expr_map, osc_expr_lreduce, osc_expr_rreduce")])
p("P32", "List functions equal their sequence definitions",
  "Building, concatenating, filling, indexing, taking first, last, rest and butlast, reversing, sorting, interleaving, finding nonzero elements, counting and generating arithmetic sequences in the expression language give the sequence that their definition gives, with every element's type and value preserved; sorting yields an ordered permutation, and sorted indices the permutation that sorts.",
  ["programs", "inputs"], "generated lists of mixed types and every index, count and step in the documented domain",
  "Few list functions appear in the tests.",
  ["osc_expr.c"], [("list functions", "osc_expr.c:osc_expr_aseq, osc_expr_range, osc_expr_nth, osc_expr_reverse, osc_expr_sort, osc_expr_interleave and others")])
p("P33", "Aggregate functions equal their mathematical definitions",
  "Sum, product, mean, median, dot and cross product, determinant, minimum, maximum, extrema, range, cumulative sum, norm, scaling, clipping, unit conversion and convex hull give the mathematical value over the given list; integer results come in a type that can hold them, and empty lists give the neutral value, NaN or no value, never a crash.",
  ["programs", "inputs"], "generated numeric lists of every type and length, including negative, fractional, repeated and single elements",
  "The tests do not evaluate them.",
  ["osc_expr.c"], [("aggregates", "osc_expr.c:osc_expr_sum, osc_expr_product, osc_expr_mean, osc_expr_median, osc_expr_dot, osc_expr_min, osc_expr_max, osc_expr_cumsum, osc_expr_clip, osc_expr_scale")])
p("P34", "String functions and type casts preserve what they should",
  "Splitting (at any of the separator's characters, without empty pieces), joining, measuring, comparing, searching and indexing strings in the expression language equal the string operations they name, and joining undoes splitting. Casting a value to a type gives the C conversion in that type, the text or the bytes of the value; byte-order functions are each other's inverse; match() sorts addresses by complete, partial and no match.",
  ["programs", "inputs"], "generated strings, separators and values of every type",
  "The tests do not evaluate them.",
  ["osc_expr.c"], [("string functions", "osc_expr.c:osc_expr_split, osc_expr_join, osc_expr_strlen, osc_expr_strfind, osc_expr_strcmp, osc_expr_strchar, osc_expr_match"), ("casts", "osc_expr.c:osc_expr_explicitCast*, osc_expr_hton32 .. osc_expr_ntoh64")])
p("P35", "Any expression text is evaluated or cleanly rejected; the bundle stays valid",
  "Parsing and evaluating any text as an expression against any well-formed bundle terminates without touching memory it should not, and leaves a well-formed bundle. The same text on the same bundle always gives the same result.",
  ["programs", "inputs"], "arbitrary text, mutated valid expressions, calls of every function with arguments of any number and type",
  "Tests evaluate valid expressions with valid arguments only.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_expr_scanner.l"], [("parser", "osc_expr_parser.y:osc_expr_parser_parseString"), ("evaluator", "osc_expr.c:osc_expr_eval, argument checks in osc_expr_2arg and others")])
p("P36", "String quoting for text output is reversible",
  "Quoting a string for output escapes exactly the quote and backslash characters, reports exactly the length written, never writes beyond the given buffer, and removing the quoting gives the original string.",
  ["inputs"], "strings of any bytes, including empty, all-meta and long ones, and buffers of any size",
  "No test covers quoting.",
  ["osc_strfmt.c"], [("quoting", "osc_strfmt.c:osc_strfmt_quotedStringWithQuotedMeta, osc_strfmt_stringWithQuotedMeta, osc_strfmt_addQuotesAndQuoteMeta")])
p("P37", "All library memory comes from the installed allocator",
  "Once a caller installs its own allocation, resize and free functions, every block the library allocates, resizes or frees in bundle, message, value, text and expression operations goes through them, with each block freed by the function that matches it. Functions can be replaced one at a time: whichever was installed last for a purpose is the one that is called, once, with what the caller asked for.",
  ["histories", "configurations"], "operation sequences run under a recording allocator",
  "No test installs an allocator.",
  ["osc_mem.c"], [("allocator indirection", "osc_mem.c:osc_set_mem, osc_mem_alloc")])
p("P38", "The streaming parser follows the structure of what it is fed",
  "Fed a bundle of any number of messages (or one message alone) one byte at a time, the incremental parser reports no error, and its state after each byte names the part of the bundle that byte belongs to (header, timetag, size, address and whether inside brackets, padding, type string, data), with the message's size and the number of its bytes still to come. In malformed input the first byte that breaks the format (bad header, negative size, no leading slash, ill-formed brackets, misalignment, missing or unsupported types) is reported at that byte, with the error that names it, and nothing is reported before.",
  ["inputs", "histories"], "bundles and messages with pattern addresses, every supported type, sizes up to hundreds of kilobytes, and the same with changed bytes, fed byte by byte",
  "The one test prints the states of a single message.",
  ["osc_serial.c", "osc_serial.h"], [("state machine", "osc_serial.c:osc_serial_processByte"), ("errors", "osc_serial.c:osc_serial_errorp, osc_serial_errstr")])
p("P39", "The function documentation agrees with the functions",
  "Every function of the expression language can be looked up by exactly its name and is documented; the documentation gives its own name, the number of arguments it requires and accepts, a name and a set of types for each required argument, and the categories it belongs to. Every such category is in the list of categories, and listing a category names exactly the functions documented to belong to it. A call is accepted with any number of arguments from the required ones to all optional ones, and refused with fewer or more.",
  ["inputs"], "names of every function and near misses, category names, their prefixes and long ones, calls with each number of arguments",
  "No test reads the documentation.",
  ["osc_expr.c", "osc_expr_func.h", "osc_expr_rec.c"], [("documentation", "osc_expr.c:osc_expr_formatFunctionDoc, osc_expr_getFunctionsForCategory, osc_expr_getCategories"), ("records", "osc_expr_func.h:osc_expr_funcsym, osc_expr_rec.c")])

p("P40", "Sizes, padding, byte order and ranks of single values",
  "The size of a piece of data is the size its type has on the wire, including for strings, blobs and nested bundles of any length, and unknown types and missing data have none. Padded lengths are the multiples of four that hold the string with its terminator, or the blob with its size. Encoding a number gives its big-endian bytes, other data is left alone, and decoding undoes encoding. Types are ordered from null over integers of growing width and floating point to strings, the largest type of lists of values is the maximum in that order, and every type has a name.",
  ["inputs"], "values of every type and length, arbitrary type characters, lists of values of mixed types",
  "No test covers them.",
  ["osc_mem.c", "osc_util.c", "osc_typetag.c", "osc_byteorder.h"], [("sizes and byte order", "osc_mem.c:osc_sizeof, osc_mem_encodeByteorder, osc_mem_decodeByteorder"), ("padding", "osc_util.c:osc_util_getPaddedStringLen, osc_util_getBlobLength"), ("types", "osc_typetag.c:osc_typetag_compare, osc_typetag_getLargestType, osc_typetag_str")])

p("P41", "A parsed expression is the tree that was written, and stays so",
  "Parsing the text of any expression gives the tree its syntax denotes: each operator, call, list, bundle, element access, assignment, increment, conditional and lambda becomes the function and arguments it stands for, in order. Printing an expression of any size gives that tree in prefix form and its length. Splitting a text into tokens gives each number, string, name, address and operator in it, in order, with its value and type, however many there are. The argument count is the number of arguments however they were added, and copies print the same as the original and are independent of it. The record of a function holds the name, signature, arguments, types and function it was given, and so does a copy of it, also after the original is freed.",
  ["programs", "inputs", "histories"], "expressions of every syntactic form nested at random, of any printed length, and trees built through the functions that add arguments and expressions",
  "The tests evaluate a few expressions and never print or copy one.",
  ["osc_expr.c", "osc_expr_parser.y", "osc_expr_scanner.l", "osc_expr_rec.c"], [("parsing", "osc_expr_parser.y:osc_expr_parser_reduce_PrefixFunction and the other reductions"), ("printing", "osc_expr.c:osc_expr_format"), ("copying and building", "osc_expr.c:osc_expr_copyAllLinked, osc_expr_arg_copy, osc_expr_appendArg, osc_expr_prependArg")])

p("P42", "Nested bundles are values that can be built, read and updated",
  "In the expression language a nested bundle is a value like any other. A bundle literal, or bundle() of names and values, gives the bundle with those messages in order; bundle() of a blob or list of bytes gives the bundle with exactly those bytes, and an error when they are not one. Reading a member, with the dot or by name, through elements of lists, members of members, parameters of functions or the address that holds the bundle, gives that member's values. Assigning to a member changes that message of that bundle (adding it when it is missing, and making the bundle when the address is unbound) and nothing else in the enclosing bundle, and gives the new value. What cannot be read or assigned is an error that leaves the bundle as it was. The timetag read is the header's.",
  ["programs", "inputs"], "expressions that build, read and update bundles nested in messages, lists and parameters, and blobs and byte lists of valid and damaged bundles",
  "The tests contain no expression with a nested bundle.",
  ["osc_expr.c", "osc_expr_parser.y"], [("members", "osc_expr.c:osc_expr_specFunc_getBundleMember, osc_expr_specFunc_assignToBundleMember"), ("construction", "osc_expr.c:osc_expr_bundle, osc_expr_bytesToBundle"), ("timetag", "osc_expr.c:osc_expr_specFunc_gettimetag")])

p("P43", "Errors are named, located, and delivered with the caller's context",
  "Every error is delivered to the installed handler exactly once, as one terminated text of at most MAX_ERR_STRING_LEN - 1 characters: file, function and line when they are given, the name of the code, and the formatted detail, whatever characters and lengths those have; the handler's result is returned, and without a handler nothing happens. Each error code has a name of its own, any other number is called unrecognized, and an address is valid exactly when it starts with '/', has at least two characters and neither '#' nor blanks. A text that the expression parser rejects is reported, with the text itself and, for an unexpected token, its exact place; an unknown function or a wrong number of arguments is named; a text that is accepted reports nothing while it is parsed. An evaluation that fails because an operand's address is unbound reports that address. Everything reported while parsing or evaluating has the context given to that call.",
  ["programs", "inputs"], "reports with file, function and detail texts of any content and length (past the 4096 characters of a report), error numbers, addresses, and expression texts, valid or not, with misplaced tokens, unknown functions, wrong argument counts and unbound addresses",
  "The tests install no error handler and look at no report.",
  ["osc_error.c", "osc_error.h", "osc_expr_parser.y", "osc_expr_scanner.l", "osc_expr.c"], [("delivery", "osc_error.c:osc_error_handler"), ("names", "osc_error.c:osc_error_string"), ("addresses", "osc_error.c:osc_error_validateAddress"), ("location", "osc_expr_parser.y:osc_expr_error_formatLocation"), ("evaluation", "osc_expr.c:osc_expr_err_unbound and its callers")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
skip = set()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        if x["id"] not in skip:
            f.write(json.dumps(x) + "\n")
print(len(P), "properties")
