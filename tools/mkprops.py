#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Queries evaluate as Boolean formulas over their comparisons",
 "For every accepted query and every valid JSON document, the match result is the Boolean combination of what each comparison alone would answer on that document: NOT/! negates the comparison or group right after it, AND and OR combine clauses, NOT binds tighter than AND, AND binds tighter than OR, and parentheses override both. This holds for any number of clauses and any nesting, and the answer never depends on the order or side on which the operands of AND or OR are written.",
 ["programs", "inputs"], "every clause tree, every assignment of outcomes to its comparisons, every way of writing it down",
 "The tests evaluate about a hundred fixed queries on one document; the space of clause trees times outcomes is unbounded and almost no test nests more than two connectives.",
 ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "jsonmatcher/nodes.go", "jsonmatcher/build_matcher.go"],
 [("PEG precedence ladder OrClause/AndClause/NotClause", "internal/grammar/aql.peg"), ("andNode/orNode/notNode.result", "jsonmatcher/nodes.go"), ("builder.build", "jsonmatcher/build_matcher.go")],
 ["NewMatcher(query).Match(document)"])

prop("C02", "Field paths reach exactly the documented values of a document",
 "A comparison is decided on exactly the values reached by following its dotted path from the document root: names match object keys exactly (case-sensitively, quoted names literally), every array met on the way is traversed transparently through its object elements, and an array found at the end of the path offers its scalar elements, while arrays directly nested in arrays are not entered. The comparison is true if at least one reached value satisfies it, whatever its position, and false if none does or the path leads nowhere.",
 ["inputs", "programs"], "every document shape, every path into it (including roots that are arrays, empty or escaped key names, long arrays and deep nesting)",
 "One test document with a handful of shapes is used; tests cannot enumerate document structures, and no test has an array at the root, an empty key or nested arrays next to objects.",
 ["jsonmatcher/json_values.go", "jsonmatcher/nodes.go", "internal/grammar/aql.peg"],
 [("getValues/getField traversal", "jsonmatcher/json_values.go"), ("scalarValues", "jsonmatcher/json_values.go"), ("Field rule and star removal", "internal/grammar/parser_gen.go")],
 ["NewMatcher(query).Match(document)"])

prop("C03", "exists and null depend only on which values the path reaches",
 "field:exists is true exactly when the path reaches at least one value of any kind (including null, empty strings, empty arrays and objects). field:null is true exactly when the path reaches at least one value and every reached value is JSON null; an array is not null even if all its elements are.",
 ["inputs"], "every document shape and path",
 "Eight fixed cases exist; the quantifier is over all documents, in particular several reached values of mixed kinds.",
 ["jsonmatcher/expr_exists.go", "jsonmatcher/expr_null.go", "jsonmatcher/nodes.go", "jsonmatcher/json_values.go"],
 [("exprExists.matches", "jsonmatcher/expr_exists.go"), ("exprNull.matches", "jsonmatcher/expr_null.go")],
 ["NewMatcher(query).Match(document)"])

prop("C04", "Numeric comparisons order numbers and numeric strings correctly",
 "For every number written in a query (integer or decimal, positive or negative) and every JSON number or string that spells a number, :, <, <=, >, >= and the inclusive range >< answer as the arithmetic order of the two values dictates, regardless of how either number is spelled. Values that are not numbers (other strings, booleans, null, objects) never satisfy a numeric comparison.",
 ["inputs"], "every pair of decimal numbers with at most 15 significant digits, in every spelling, every operator",
 "Tests use the values 1 and 1.1 with fixed bounds; the comparison must hold for all pairs, boundaries and spellings.",
 ["jsonmatcher/expr_float.go", "jsonmatcher/expr_numeric.go", "jsonmatcher/expr_between.go", "jsonmatcher/expr_eq.go", "jsonmatcher/json_values.go"],
 [("exprFloat.matches", "jsonmatcher/expr_float.go"), ("getNumberVal", "jsonmatcher/json_values.go")],
 ["NewMatcher(query).Match(document)"])

prop("C05", "Timestamp comparisons follow the order of instants",
 "For every timestamp written in a query and every string in the document that spells a date or time, <, <=, >, >= and the inclusive range >< answer as the chronological order of the two instants dictates, in any time zone, with any fraction of a second and for any year from 0001 to 9999. Equality with a date-time matches exactly that instant, equality with a bare date matches exactly the instants of that UTC day, and strings that are not dates never match.",
 ["inputs"], "every pair of instants, zones and spellings of RFC 3339 (and a few common human date formats in documents)",
 "Tests use instants in January 1970 only; order over all instants, zones and far years is not sampled.",
 ["jsonmatcher/expr_datetime.go", "jsonmatcher/expr_numeric.go", "jsonmatcher/expr_between.go", "jsonmatcher/expr_eq.go", "jsonmatcher/json_values.go", "parser/ast/ast.go"],
 [("exprDatetime.matches", "jsonmatcher/expr_datetime.go"), ("whole-day range for bare dates", "jsonmatcher/expr_eq.go"), ("NewTimeVal", "parser/ast/ast.go")],
 ["NewMatcher(query).Match(document)"])

prop("C06", "String search finds whole words, ignoring case, with wildcards",
 "field:\"text\" matches a string value (or the decimal spelling of a number) exactly when the text occurs in it ignoring ASCII case, with ? standing for exactly one character, * for any run of characters, and \\? or \\* for the literal character. An ASCII search text must in addition occur as whole words: an end of it that is a letter, digit, underscore or wildcard has to fall on a word boundary; a search text that contains non-ASCII characters may occur anywhere.",
 ["inputs"], "every search text and every string value (single-line, CJK letters for the non-ASCII part)",
 "A dozen fixed strings are tested; the pattern language over all texts, including texts that begin or end in punctuation, is not.",
 ["jsonmatcher/str_matchers.go", "jsonmatcher/expr_regexp.go", "jsonmatcher/json_values.go"],
 [("stringSearchRegexp", "jsonmatcher/str_matchers.go"), ("unicodeMatcher", "jsonmatcher/str_matchers.go"), ("getStringVal", "jsonmatcher/json_values.go")],
 ["NewMatcher(query).Match(document)"])

prop("C07", "Regex values match as unanchored Go regular expressions",
 "field:/re/ accepts exactly the expressions Go's regexp syntax accepts between the delimiting slashes and matches a string value (or the decimal spelling of a number) exactly when that expression matches somewhere in it, case-sensitively and unanchored. A slash written as \\/ is an ordinary slash of the expression wherever it stands, and any other backslash keeps its regexp meaning.",
 ["inputs", "programs"], "every regular expression (literals, ., classes, groups, alternation, repetition, anchors, escapes) and every string value",
 "Nine fixed expressions are tested, none of which begins or ends with an escaped slash or backslash.",
 ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/ast/ast.go", "jsonmatcher/expr_regexp.go"],
 [("RegexValue rule", "internal/grammar/aql.peg"), ("NewRegexpVal", "parser/ast/ast.go"), ("exprRegexp.matches", "jsonmatcher/expr_regexp.go")],
 ["NewMatcher(query).Match(document)"])

prop("C08", "Network terms match addresses and blocks embedded in strings",
 "field:a.b.c.d or field:a.b.c.d/n matches a string value exactly when some IPv4 address written in it lies in the queried block, or some CIDR block written in it overlaps the queried block (a bare address counts as a /32 block). Malformed addresses or blocks in the value (an octet above 255, a prefix above 32) are ignored without hiding other addresses in the same string, and values that are not strings never match.",
 ["inputs"], "every queried block, every string with any number of valid and malformed addresses",
 "Eleven fixed cases are tested; containment and overlap must hold for all prefix lengths and all placements in text.",
 ["jsonmatcher/expr_net.go", "parser/ast/ast.go"],
 [("exprNet.matches and getNets", "jsonmatcher/expr_net.go"), ("NewNetVal", "parser/ast/ast.go")],
 ["NewMatcher(query).Match(document)"])

prop("C09", "An equality set means the OR of its members; booleans are strict",
 "field:(v1, ..., vn) matches exactly when field:vi alone matches for at least one i, whatever the number, order and mixture of types of the members. true and false match only the JSON booleans of that value, and :~ gives the same answer as : for every value list it accepts.",
 ["inputs", "programs"], "every list of member values of any types and sizes, every document",
 "Four list tests exist; equivalence with the disjunction must hold for all lists and positions of the matching member.",
 ["jsonmatcher/expr_eq.go", "jsonmatcher/expr_equal_bool.go", "jsonmatcher/nodes.go", "jsonmatcher/build_matcher.go"],
 [("exprEQ", "jsonmatcher/expr_eq.go"), ("exprNode.result loop over exprs", "jsonmatcher/nodes.go"), ("getBoolVal", "jsonmatcher/json_values.go")],
 ["NewMatcher(query).Match(document)"])

prop("C10", "The parser accepts exactly the query language and builds its tree",
 "A text is accepted exactly when it is a query of the documented language (fields, operators, value literals, lists, AND/OR/NOT, parentheses, free whitespace where allowed), and then the syntax tree has exactly the clauses, operators, field names, value types and values that were written, with AND and OR chains nested to the right. Any other text, including anything left over after a complete query, is rejected with a parse error and no tree.",
 ["inputs"], "every text over the characters of the language",
 "About fifty accepted and fifteen rejected texts are tested; membership and tree must be right for all texts.",
 ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/parser.go", "parser/ast/ast.go"],
 [("generated PEG parser", "internal/grammar/parser_gen.go"), ("literal constructors", "parser/ast/ast.go"), ("ParseQueryReader", "parser/parser.go")],
 ["parser.ParseQuery / ParseQueryReader: tree or *ParseError"])

prop("C11", "Operators only accept arguments that make sense for them",
 "A syntactically correct query is rejected exactly when some comparison breaks an operator rule: an ordering or range operator given a value that is not a number or timestamp, :~ given anything but strings, regexes or booleans, an argument count the operator does not take, a repeated argument, both true and false in one equality set, or a range whose bounds are of different kinds or not strictly increasing. The rejection points at the first offending argument (or at the whole comparison for a wrong argument count), and the comparison to blame is the first one in reading order.",
 ["programs", "inputs"], "every operator with every list of argument types and values, anywhere in a query",
 "About a dozen operator/argument combinations are tested out of all operators times lists of typed values times positions in a query.",
 ["parser/validators.go", "parser/parser.go"],
 [("opValidator: checkValues, checkArity, checkRVals, checkBetween", "parser/validators.go")],
 ["parser.ParseQuery error and its position"])

prop("C12", "Reported positions point at the text they talk about",
 "In every accepted query each comparison and each value carries a position whose byte offset, line, column (in characters) and length (in characters) delimit exactly the text it was written as. In every rejected query the error's position lies within the query (or just past its end), line and column agree with the offset, and an error about an invalid value or operator argument starts at that value.",
 ["inputs"], "every query text, including multi-line and multi-byte text",
 "Tests check a dozen single-line ASCII error positions and no value positions of accepted queries.",
 ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/ast/ast.go", "parser/validators.go"],
 [("getpos", "internal/grammar/parser_gen.go"), ("GetParseError", "internal/grammar/parser_gen.go"), ("ErrorWith/ErrorAt", "parser/parser.go")],
 ["positions of tree nodes and of *ParseError"])

prop("C13", "Visitors see every node once, in order, and control the walk exactly",
 "Each registered visitor is shown the nodes of the accepted tree in depth-first, parent-before-children, left-to-right order, each at most once: returning Skip leaves out exactly that node's descendants, returning SkipAll ends only that visitor's walk without failing the parse, and any other error ends parsing at once and is what the caller gets (a parse error unchanged, another error wrapped). Visitors run one after the other in registration order after the built-in argument checks, and none runs once an earlier one has failed.",
 ["programs", "histories"], "every tree, every assignment of visitor reactions to nodes, every sequence of visitors",
 "No test registers a visitor; reactions at every node of every tree cannot be sampled.",
 ["parser/visitors.go", "parser/parser.go"],
 [("walk/walkr", "parser/visitors.go"), ("visitor loop", "parser/parser.go")],
 ["order of Visit calls and result of ParseQuery"])

prop("C14", "Visitor messages are kept in order and an error message fails the parse",
 "A message visitor's messages are exactly the hints, warnings and errors its function issued, in order, with the type, formatted text and position given (or no position). If any of them is an error, parsing returns no tree and a parse error with the text and position of the first error message; hints and warnings never fail a parse.",
 ["programs", "histories"], "every sequence of messages issued at any nodes of any tree",
 "No test uses a message visitor's messages or errors.",
 ["parser/visitors.go", "parser/message.go", "parser/parser.go"],
 [("MessageTape.addMsg", "parser/visitors.go"), ("firstErr check", "parser/parser.go")],
 ["MessageVisitor.Messages and result of ParseQuery"])

prop("C15", "A matcher's advice is exactly what its query calls for",
 "NewMatcher's messages are, in reading order and positioned at the value concerned, exactly the advice the query calls for: a warning for :~ on a string or regex, a warning for an exact date-time equality (not for a bare date), a warning for a case-insensitive regex with non-ASCII text, and hints for a redundant leading or trailing .*, an outer capturing group, or a plain alternation. Advice never changes whether the query is accepted or what it matches.",
 ["programs"], "every accepted query",
 "No test looks at messages.",
 ["jsonmatcher/query_messages.go", "jsonmatcher/jsonmatcher.go"],
 [("messageVisitor", "jsonmatcher/query_messages.go")],
 ["Matcher.Messages"])

prop("C16", "Match statistics count every evaluation exactly",
 "After any history of matches, the statistics tree mirrors the query (one entry per AND, OR, NOT and comparison, with its operands as children) and each entry's counts are exactly how often that clause was evaluated and how often it was true, where the right operand of AND or OR is evaluated only if the left one did not already decide. Documents rejected as invalid JSON count for nothing and reading statistics changes nothing.",
 ["histories", "programs"], "every query and every sequence of documents",
 "No test reads statistics.",
 ["jsonmatcher/node_stats.go", "jsonmatcher/nodes.go", "jsonmatcher/build_matcher.go"],
 [("nodeStats.mark", "jsonmatcher/node_stats.go"), ("toStatsNode", "jsonmatcher/node_stats.go"), ("short-circuit in result", "jsonmatcher/nodes.go")],
 ["Matcher.Stats after each Match"],
 state=[dict(name="timesChecked, timesMatched", meaning="per-clause counters", where="jsonmatcher/node_stats.go")])

prop("C17", "One matcher can be shared by concurrent callers",
 "When any number of goroutines call Match and Stats on one matcher, every Match returns what it would have returned alone, no access races, and once all calls have returned the counts are exactly those of some sequential order of the calls. Every statistics snapshot taken meanwhile is sane: no entry reports more matches than checks, counts never decrease from one snapshot to a later one, and completed matches are included.",
 ["schedules"], "every interleaving of the atomic steps of concurrent Match and Stats calls",
 "All tests are single-threaded.",
 ["jsonmatcher/node_stats.go", "jsonmatcher/nodes.go", "jsonmatcher/jsonmatcher.go"],
 [("atomic counters", "jsonmatcher/node_stats.go"), ("immutable expression tree", "jsonmatcher/build_matcher.go")],
 ["Match results and Stats snapshots under a controlled scheduler"],
 state=[dict(name="timesChecked, timesMatched", meaning="shared per-clause counters", where="jsonmatcher/node_stats.go")])

prop("C18", "Any query and document get a definite, repeatable answer",
 "For every query text, creating a matcher returns either a matcher or a parse error, and for every byte string Match returns an error exactly when it is not valid JSON and a yes/no answer otherwise; nothing panics or hangs, however the query is nested or the document is shaped. The answer depends only on the query and the document: it is the same on every call, in any order of calls and for any insignificant whitespace in the document, and the document bytes are left untouched.",
 ["inputs", "histories"], "every query text, every byte string as a document, every sequence of calls on one matcher",
 "Tests use valid queries on one valid document, once per matcher.",
 ["jsonmatcher/jsonmatcher.go", "jsonmatcher/json_values.go", "internal/grammar/parser_gen.go", "parser/parser.go"],
 [("json.Valid guard", "jsonmatcher/jsonmatcher.go"), ("getValues", "jsonmatcher/json_values.go"), ("PEG parser", "internal/grammar/parser_gen.go")],
 ["NewMatcher and Match return values, panics, time, document bytes"])

prop("C19", "Formatted messages show and mark the right part of the query",
 "For every query, message position and width limit, the shown excerpt is the query itself (or a stretch of at most the limit's characters with ... exactly where text was cut off), it contains the start of the marked text and all of it when it fits, and text before, marked text and text after concatenate to the excerpt. The marker's offset and length, counted in characters, select exactly the marked part of the excerpt (a one-character marker past the end for positions at the end of the query), also for multi-byte text; messages without a position show no marker.",
 ["inputs"], "every query text, offset, length and width limit",
 "No test imports the formatter.",
 ["parser/fmtmsg/formatter.go", "parser/fmtmsg/truncate.go", "parser/fmtmsg/functions.go"],
 [("findCenterSubstring", "parser/fmtmsg/truncate.go"), ("printData accessors", "parser/fmtmsg/formatter.go")],
 ["Printer.Sprint with templates that print every accessor"])

prop("C20", "The sampler lists exactly the key paths that lead to scalars",
 "Sampling a well-formed JSON object or array (with nothing around it and no key repeated within an object) records one occurrence of a key path for every scalar (string, number, boolean, null) reachable by following object keys and the elements of arrays (arrays nested directly in arrays are skipped) through at most the configured number of keys, any number if the configured depth is negative; scalars with no key above them and empty containers record nothing. A path is its keys joined by dots, a key that is not a plain name being written quoted.",
 ["inputs", "configurations"], "every document and every depth limit",
 "A dozen documents at depth 5 are tested.",
 ["sampler/sampler.go"],
 [("Sampler.sample", "sampler/sampler.go")],
 ["Sampler.Keys and KeysAtThreshold after Sample"])

prop("C21", "Sampler totals reflect exactly the documents accepted so far",
 "After any history of Sample and Reset calls, Scanned is the number of documents accepted since the last Reset, Keys is the set of paths recorded from them and KeysAtThreshold(p) is the set of those paths whose occurrences divided by Scanned are at least p percent. Empty input and documents that are not an object or array are rejected, a rejected document leaves all of this unchanged and the sampler usable, and no call panics.",
 ["histories", "inputs"], "every sequence of Sample, Reset, Keys, KeysAtThreshold and Scanned calls, with accepted and rejected documents in any order",
 "Tests use each sampler for one document or one fixed cycle of three valid documents, never Reset, and never go on after an error.",
 ["sampler/sampler.go"],
 [("Sample error path", "sampler/sampler.go"), ("Reset", "sampler/sampler.go"), ("KeysAtThreshold", "sampler/sampler.go")],
 ["Sampler public methods"],
 state=[dict(name="keys, totalDocs", meaning="occurrences per path, accepted documents", where="sampler/sampler.go")])

prop("C22", "Every sampled key path works as a query field",
 "Each key path the sampler lists for an accepted document, used verbatim as the field of an AQL query, is accepted by the parser and exists in that document; conversely a path of the document's keys that leads to a scalar within the depth limit is always listed. This holds for any key names: with spaces, dots, quotes, punctuation, stars, escapes, non-ASCII letters, or empty.",
 ["inputs"], "every document (without repeated keys) and every key name",
 "No test connects the sampler with the query language.",
 ["sampler/sampler.go", "internal/grammar/aql.peg", "jsonmatcher/json_values.go"],
 [("key quoting in Sampler.sample", "sampler/sampler.go"), ("Field rule", "internal/grammar/aql.peg"), ("getValues", "jsonmatcher/json_values.go")],
 ["Sampler.Keys fed to NewMatcher(path + \":exists\").Match"])

prop("C23", "The query graph has the shape and labels of the query",
 "For every accepted query the graph consists of a start point and one node per AND, OR, NOT and comparison, with an edge from the start to the whole query and from each connective to each of its operands, and nothing else. Each comparison's node shows its field, operator and all values with their types, in order and readable as written whatever characters they contain, and a picture has the query for its caption; a rejected query yields an error and no graph.",
 ["programs"], "every accepted query, including values with markup characters",
 "The graph package has no tests.",
 ["aqlgraph/graph.go", "aqlgraph/node_html.go"],
 [("visitNodes", "aqlgraph/graph.go"), ("labelTmpl", "aqlgraph/node_html.go")],
 ["Graph.OutputDOT, Graph.OutputSVG"])

prop("C24", "The command-line tool reports what the library decides",
 "For every query (given directly or in a .aql file) and JSON file, aqltest exits successfully exactly when the query is accepted and the file is readable, valid JSON, and then prints the match result followed by the statistics of that one match, with every message about the query on standard error. Otherwise it exits with a failure, prints no result, and for a rejected query shows the error with a marker under its position.",
 ["inputs", "configurations"], "every query, document and way of invoking the tool",
 "The command has no tests.",
 ["cmd/aqltest/main.go", "parser/fmtmsg/formatter.go"],
 [("main", "cmd/aqltest/main.go")],
 ["exit status, standard output and standard error of aqltest"])

prop("C25", "A query means the same however it is handed over",
 "Parsing a query text gives the same outcome - the same tree, or an error at the same position - whether it is given as a string or through a reader that delivers it in pieces of any size, with or without the debug option, with or without visitors that do nothing, again after other queries and at the same time as other queries. A matcher holds and reports exactly the text it was made from and accepts what the parser accepts; a reader that fails makes parsing fail, and no query is too long to be kept whole.",
 ["inputs", "histories", "configurations"], "every query text and length, every way a reader can cut it up, every combination of options",
 "Tests parse short strings, once each.",
 ["parser/parser.go", "internal/grammar/parser_gen.go", "jsonmatcher/jsonmatcher.go"],
 [("ParseQueryReader", "parser/parser.go"), ("memoization", "internal/grammar/parser_gen.go"), ("NewMatcher", "jsonmatcher/jsonmatcher.go")],
 ["ParseQuery, ParseQueryReader, NewMatcher, Matcher.Query"])

prop("C26", "Printed queries and clause names tell different clauses apart",
 "Two accepted queries print as the same text exactly when they are the same tree: the same clauses in the same order with the same fields, operators and values (value kinds included), whatever whitespace and redundant parentheses they were written with. The names of the comparisons in the statistics are equal for two comparisons exactly when field, operator and values are.",
 ["programs"], "every pair of accepted queries, in particular pairs that differ in one detail only",
 "Tests compare printed trees of a handful of queries with fixed texts.",
 ["parser/ast/ast.go", "jsonmatcher/build_matcher.go"],
 [("String methods", "parser/ast/ast.go"), ("FieldString", "parser/ast/ast.go")],
 ["fmt.Stringer of the tree, MatchStats names"])

prop("C27", "The drawing tool writes exactly the file it is asked for, or none",
 "For an accepted query aqlgraph exits successfully and the named file (query_graph.svg if none is named) then holds a complete drawing of the query in the format its extension calls for, svg or dot in upper or lower case, replacing what was there. For a rejected query, an unknown extension or a file that cannot be written it says so, exits with a failure and leaves every file as it was.",
 ["inputs", "configurations"], "every query, output name and state of the directory",
 "The command has no tests.",
 ["cmd/aqlgraph/main.go", "aqlgraph/graph.go", "aqlgraph/node_html.go"],
 [("main", "cmd/aqlgraph/main.go"), ("OutputSVG, OutputDOT", "aqlgraph/graph.go")],
 ["exit status of aqlgraph and the files in its working directory"])

prop("C28", "The browser bridge tells a page what the parser found",
 "For every non-empty query text the browser's parse function gives back the library's tree and only hints and warnings if the query is accepted, and otherwise no tree and one error message, marked where the library reports the error or, for an incomplete query, at its last character. Marked ranges are indexes into the JavaScript string, for any characters; an accepted query gets exactly the advice its regular expressions (as for a matcher), its deprecated :~ on regular expressions and its exact timestamps call for, each at the value (or comparison) concerned.",
 ["inputs", "histories"], "every query text, in any sequence of calls",
 "The bridge has no tests and is not even compiled by them.",
 ["wasm/aqlparse/main.go", "wasm/aqlparse/warnings.go"],
 [("pWrap", "wasm/aqlparse/main.go"), ("warningVisitor", "wasm/aqlparse/warnings.go")],
 ["the function the compiled bridge installs, run by node"])

prop("C29", "Messages keep their kind, text and place in every form they are written",
 "A hint, warning or error shows the kind, text and position it was issued with in every form it is written, whatever characters the text contains: its text form ends with the text and before it names the kind (an error of the parser has no other) and, if it has a position, line and column; its JSON holds the text, the kind (HINT, WARNING or ERROR) and the position's line, column, offset and length. A formatter gives its template the kind (info, warning or error), the text and the query of the message being printed, whatever it was used for before, and the terminal form starts with kind and text. In the output of an HTML formatter text and query are escaped, so that a browser shows exactly them.",
 ["inputs", "histories", "configurations"], "every message text, kind and position, every query, any sequence of messages and queries through one formatter",
 "Messages are not tested in any written form.",
 ["parser/message.go", "parser/fmtmsg/formatter.go", "internal/grammar/parser_gen.go", "parser/ast/ast.go"],
 [("ParserMessage, MessageType", "parser/message.go"), ("Formatter, Printer", "parser/fmtmsg/formatter.go"), ("ParseError", "internal/grammar/parser_gen.go")],
 ["String and Error methods, encoding/json, Printer.Sprint"])

prop("C30", "The page's server gives out the files of the page and nothing else",
 "Started with a directory, the server of the browser page answers requests on port 8080: / and /index.html get index.html, and the names of the page's other files (wasm_exec.js, hwt.css, style.css, aqlparse.wasm) get those, whole or the part asked for, as they are at that moment and with the content type their extension calls for. Any other path, however written (another name, letter case or directory, dot segments, escapes), is not found and never yields contents of another file; a missing file is no success either, and neither that nor any number of requests ends the service. Without exactly one argument the server says how it is used and fails.",
 ["inputs", "histories"], "every request path, every state of the directory, every sequence of requests and changes",
 "The server has no tests.",
 ["wasm/aqlparse/server/main.go"],
 [("DiskFS.Open", "wasm/aqlparse/server/main.go"), ("the handler in main", "wasm/aqlparse/server/main.go")],
 ["HTTP answers of the running server"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
