"""Writes properties.jsonl (kept as a script so that the texts are readable)."""
import json
import os

G = "src/fcsql/FCSParser.g4"
L = "src/fcsql/FCSLexer.g4"
GP, GL = "src/fcsql/FCSParser.py", "src/fcsql/FCSLexer.py"
P, V, I = "src/fcsql/parser.py", "src/fcsql/validation.py", "src/fcsql/__init__.py"
GLI, GVI = "src/fcsql/FCSParserListener.py", "src/fcsql/FCSParserVisitor.py"
ROWS = []


def add(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    ROWS.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                             "observe_at": list(observe), "hook_needed": None}})


add("C01", "Accepted texts are exactly the FCS-QL 2.0 queries",
    "A text is accepted by parse(), can_parse() and a parser object if and only if it matches the FCS-QL 2.0 grammar (all of it, from the first to the last character) and is meaningful: repetition ranges are not reversed, regex flags do not contradict each other, code point escapes name existing code points. "
    "This holds for any text of moderate size (nesting and length within what the host's stack can take), with any quoting, escapes, white space, names, flags and repetitions, and all entry points give the same verdict.",
    ["inputs"], "all texts up to thousands of characters, including every token sequence, every character in every role, and near misses of valid queries",
    "The tests try a few dozen short texts; the language is infinite and most of its tokens, keyword collisions and near misses are never tried.",
    [G, L, GP, GL, P, I], [("grammar tables", GP + " serializedATN"), ("lexer tables", GL + " serializedATN"), ("QueryParser.parse verdict", P), ("semantic checks of the tree builder", P)],
    ["fcsql.parse", "fcsql.can_parse", "QueryParser.parse"])
add("C02", "Sequences, alternatives, groups and segments keep their structure",
    "The tree of a query reflects the text one to one at the level of segments: juxtaposition gives a sequence, | gives alternatives of (weaker binding) sequences, parentheses give a group, and each bare literal or [...] gives one segment, all in text order with nothing lost, added, duplicated, merged or flattened across parentheses. "
    "A single item gives no sequence or alternative of its own beyond what the grammar prescribes.",
    ["inputs"], "all compositions of segments, groups and alternatives of any width and depth within the host's stack",
    "The tests look at a handful of two- or three-element queries; structure bugs need particular widths, nestings or mixtures.",
    [P, G, GP], [("visitQuery_disjunction / visitQuery_sequence / visitQuery_group / visitQuery_simple", P), ("builder stack", P + " ExpressionTreeBuilder.stack")],
    ["children of the returned tree"])
add("C03", "NOT binds tighter than AND, AND tighter than OR; parentheses override",
    "Inside [...] the tree is the one given by the precedence NOT over AND over OR with parentheses kept as groups: an AND never contains an ungrouped OR operand, a NOT applies only to the operand directly behind it, and chains of the same operator give one node with all operands in text order. "
    "Every condition of the text occurs exactly once.",
    ["inputs"], "all boolean expressions over conditions, with any number of NOTs, operands and nested parentheses",
    "The tests have a few fixed expressions; precedence errors depend on the mixture and position of operators.",
    [P, G, GP], [("rules expression_or / expression_and / expression_not", G), ("visitExpression_or / _and / _not / _group", P)],
    ["children of the returned expression nodes"])
add("C04", "Every condition has the attribute, qualifier and operator of the text",
    "Each condition of the tree carries exactly the identifier, the optional qualifier and the operator (= or !=) written in the text, whatever names are used (including names that are also keywords, scopes or flag letters, and names of any length), with letter case kept. "
    "A bare literal gets the configured default identifier and operator and no qualifier, and [] gives a condition that matches anything and has none of these.",
    ["inputs", "configurations"], "all names (keywords included), qualifiers, operators and default settings, at any place of a query",
    "The tests use a few common names such as text, lemma and pos; keyword-like and long names and mixed positions are not covered.",
    [P, L, G], [("visitExpression_basic / visitAttribute / visitQuery_implicit", P), ("IDENTIFIER / WITHIN / SIMPLE_WITHIN_SCOPE / REGEXP_FLAGS tokens as names", G)],
    ["identifier, qualifier, operator of the conditions"])
add("C05", "Literal values are decoded exactly",
    "The value of a condition is the text between its quotes with \\n and \\t turned into line feed and tab, \\xHH, \\uHHHH and \\UHHHHHHHH into the named character, escaped quotes and backslashes into themselves, escaped regex metacharacters kept together with their backslash, and everything else kept as it is; then the whole is brought into the configured Unicode normalisation form (none if switched off). "
    "This is the same for single and double quotes, at any length and with any Unicode characters.",
    ["inputs", "configurations"], "all strings of Unicode characters and escapes of any length, in both kinds of quotes, under every normalisation setting",
    "The tests decode a few escapes; there are 1.1 million code points in several spellings, and interactions between neighbouring escapes and with normalisation.",
    [P, L], [("visitRegexp / stripQuotes / unescapeString / unescapeUnicode", P), ("REGEXP token with escapes", L)], ["regex attribute of the conditions"])
add("C06", "Regex flags: exact meaning, contradictions refused",
    "Flags behind a literal give exactly the set of meanings of their letters: i and c case-insensitive, I and C case-sensitive, l literal matching, d ignore diacritics; order and repetition do not matter, and without flags there is no set. "
    "A combination of case-insensitive with case-sensitive, or of literal matching with any other flag, is rejected; every other combination is accepted, each literal has only its own flags, and each flag names its letter (the lower or upper case i, l or d).",
    ["inputs"], "all flag strings of any length on any literal of a query",
    "The tests try single flags and a few pairs; order, repetition and triples are not settled by them.",
    [P, L], [("visitRegexp (flags)", P), ("REGEXP_FLAGS token", L)], ["regex_flags of the conditions"])
add("C07", "Repetition bounds are exact; reversed ranges are refused",
    "Each segment and group has the bounds written behind it: none is 1..1, ? is 0..1, * is 0..unbounded, + is 1..unbounded, {n} is n..n, {n,m} is n..m, {n,} is n..unbounded, {,m} is 0..m, with numbers of any size and leading zeros allowed. "
    "A range with minimum above maximum is rejected, and bounds belong to the item directly before them only.",
    ["inputs"], "all forms and numbers (also zero, equal, huge), on segments and groups at any place",
    "The tests check a dozen forms with small numbers.",
    [P, G], [("processRepetition / processRepetitionRange", P), ("rule quantifier", G)], ["min_occurs / max_occurs of segments and groups"])
add("C08", "The within clause gives exactly the named scope",
    "A trailing 'within' clause wraps the whole query together with one scope, where s/sentence, u/utterance, p/paragraph, t/turn, text and session name the six scopes (exactly these words, case-sensitive); without the clause there is no wrapper. "
    "A clause that names anything else, several clauses, or a clause anywhere but at the end is rejected, and the clause never changes the tree of the query before it.",
    ["inputs"], "all queries combined with every scope word, near miss and misplacement, in any layout",
    "The tests use few scopes with trivial queries.",
    [P, L, G], [("visitQuery / visitWithin_part_simple", P), ("SIMPLE_WITHIN_SCOPE token", L)], ["scope of the clause node", "root of the tree"])
add("C09", "Source locations cover exactly the text of each node",
    "With locations switched on, every node of the tree carries start and end offsets (in characters, end exclusive) such that the text between them is exactly the part of the query that the node stands for: a child lies inside its parent, siblings follow each other without overlap, and no surrounding white space is included. "
    "With locations switched off no node carries one, and the tree is otherwise the same.",
    ["inputs", "configurations"], "all queries in any layout, with line breaks, characters outside the BMP and any nesting",
    "The tests compare locations of a few one-line ASCII queries.",
    [P], [("SourceLocation.fromContext", P), ("location assignments in the tree builder", P)], ["location of every node"])
add("C10", "Spelling variants of one query mean the same",
    "White space (any of the grammar's white-space characters, any amount, or none where tokens stay apart) between the parts of a query, the choice of quotes, equivalent escapes, equivalent flag letters and their order, short and long scope words, and equivalent repetition forms do not change the resulting tree, apart from locations.",
    ["inputs"], "all pairs of equivalent spellings of all queries",
    "A relation between infinitely many pairs of inputs; the tests contain no such pairs beyond single spaces.",
    [P, L], [("white-space rule (skip)", L), ("decoding of literals, flags, scopes and repetitions", P)], ["equality of trees"])
add("C11", "Any text ends in a tree or in the one documented exception",
    "Parsing any text whatever, including texts with control characters, lone surrogates, unbalanced, very long or deeply nested texts, either returns a tree or raises the documented parser exception with a non-empty message; no other exception type escapes, and can_parse() returns a bool. "
    "Parsing prints nothing, warns about nothing, and does not change the process (recursion limit, working directory, standard streams, hooks).",
    ["inputs"], "all texts, including hostile and extreme ones",
    "The tests feed a handful of malformed queries; exception leaks need odd characters or combinations.",
    [P, I], [("exception conversion in QueryParser.parse", P), ("replacement of the default error listeners", P), ("can_parse", I)], ["exceptions, standard streams, process state"])
add("C12", "Syntax error details name the right place",
    "When a text is rejected for its syntax, the parser lists at least one detail, of type syntax-error, and the message of the first one is part of the exception's message. Unusable characters are reported in text order at their own offsets, and the first reported place in the token sequence is exactly the first token (or the end of the text) at which no query can continue, with start, exclusive end and the text up to its end as fragment, all inside the text. "
    "After an accepted text the list is empty.",
    ["inputs"], "all texts that are not queries, with any number of lines and any characters",
    "The tests look at the details of one or two errors; the place depends on every prefix of the text.",
    [P], [("ErrorListener.syntaxError", P), ("QueryParser.errors", P)], ["errors of the parser, exception message"], [("errors", "details of the last parse", P + " QueryParser.errors")])
add("C13", "Parsing has no memory: the answer depends on text and settings only",
    "The verdict, tree and error details for a text are the same whenever it is parsed: first in a fresh process, after thousands of other texts, after failures, after near-identical texts, on a new or an old parser object, and whatever callers did to earlier results. "
    "Results handed out earlier never change because of later parses.",
    ["histories", "inputs"], "all histories of parses on any number of parsers, in any order, with callers modifying what they received",
    "Unit tests parse each text once in a fixed order; state leaks show up only along particular histories.",
    [P, GP, GL, I], [("new listener, lexer, token stream, grammar parser and builder per call", P + " QueryParser.parse"), ("shared DFA caches of the generated recognizers", GP + " / " + GL)],
    ["results along a history"], [("errors", "only the last parse", P + " QueryParser.errors"), ("decisionsToDFA", "prediction caches shared by all parsers", GP)])
add("C14", "Threads get their own right answers",
    "Any number of threads may parse and validate at the same time, with own or shared parser objects and through the module functions: each call returns the verdict and tree of its own text under the settings used, and threads with their own parser or validator objects also see only their own error details. Several threads may render and validate one tree at a time, without changing it. "
    "No thread fails or blocks because of another, also at the very first use in a process.",
    ["schedules", "inputs"], "all interleavings of parse, validate and render calls of several threads, on warm and cold caches",
    "There is no concurrent test at all; races need particular switches between two threads.",
    [P, V, GP], [("no shared mutable state besides the prediction caches", P), ("shared DFA and context caches", GP)], ["results per thread"], [("decisionsToDFA, sharedContextCache", "shared between threads", GP)])
add("C15", "An interrupted call leaves nothing behind",
    "If a parse or validation is cut off at any point by KeyboardInterrupt, SystemExit, GeneratorExit, lack of memory or lack of stack, the interruption reaches the caller (lack of memory or stack may come as the documented parser exception), and afterwards every other call, on the same parser or validator as well as on new ones, behaves as if the interrupted one had never happened. "
    "A cut-off validation leaves the tree unchanged.",
    ["crash_points", "inputs"], "interruptions at every executed line of the library and at every stack depth, for any text",
    "The tests never interrupt anything; there are thousands of points at which a call can be cut off.",
    [P, V], [("errors updated in finally", P + " QueryParser.parse"), ("reset of lists and stack at the start of a validation", V + " Validator.validate")],
    ["calls after an interruption"], [("stack", "parents of the node at hand", V + " Validator.stack")])
add("C16", "Results belong to their caller",
    "Every parse returns a new tree that shares no node, list or flag set with any other result or with the parser, so that changing one result changes no other and no later one, and no object occurs twice in a tree. Reading a tree in any way (rendering, asking nodes, visiting, validating) never changes it. "
    "Lists of errors and warnings once taken from a parser or validator are not changed by its further use.",
    ["histories", "inputs"], "all sequences of parses, reads and caller-side changes",
    "Aliasing is invisible to tests that look at one result at a time.",
    [P, V], [("new node objects per parse", P + " ExpressionTreeBuilder"), ("new lists per call", P + " / " + V)], ["identity of the objects of results"])
add("C17", "Parents, children and child look-up are consistent",
    "In every tree, parsed or built by hand, the parent of each node is the node it is a child of (none for the root), children are in order and counted correctly, and looking up the i-th, first or last child, optionally restricted to a node class (subclasses included), gives exactly that child, or nothing if there is none (also for negative and too large positions). "
    "The named accessors (query and clause of a within, content of a group, expression of a segment, operands of AND and OR) give the corresponding children, and each kind of node has the number of children it must have.",
    ["inputs", "programs"], "all trees, parsed or built, all nodes, positions and classes",
    "The tests call few look-ups on few nodes; off-by-one errors sit at boundaries and with class filters.",
    [P], [("QueryNode.__init__, get_child, get_first_child, get_last_child, child_count", P), ("get_query / get_within / get_content / get_expression / operands", P)], ["public methods of nodes"])
add("C18", "What a node says about itself is true",
    "The questions a node answers (its node type, whether it has a given identifier, qualifier, operator or regex flag, whether it has no qualifier or no flags at all) are answered true exactly when that is so in the query text or in the arguments the node was built with; comparisons are exact and case-sensitive. "
    "A blank qualifier counts as none, and asking without an argument raises a TypeError.",
    ["inputs", "programs"], "all nodes of all trees, parsed or built, and all arguments",
    "The tests ask only a few of these questions, mostly where the answer is yes.",
    [P], [("has_* and is_*_empty methods", P + " Expression / QueryNode"), ("node_type per class", P)], ["public methods of nodes"])
add("C19", "Visitors reach every node once, in order, through its own handler",
    "Visiting a tree calls, for each node, the handler of its kind (or goes on to its children where there is no handler) in document order and exactly once, parents before children; handlers that do not continue keep their subtree unvisited, and nothing else. "
    "Results are combined from left to right starting with the default result, the visit can be stopped between children, and an exception in a handler reaches the caller.",
    ["programs", "inputs"], "all visitor classes (any subset of handlers, any aggregation or stop rule) on all trees",
    "The tests contain one or two visitors on one tree; dispatch errors show only for particular node kinds.",
    [P], [("QueryVisitor.visit dispatch", P), ("visitChildren / aggregateResult / shouldVisitNextChild / defaultResult", P), ("QueryVisitorAdapter", P), ("accept", P + " QueryNode")], ["sequence of handler calls"])
add("C20", "The printed form of a tree shows all of its content, always the same way",
    "The text form of every node is a deterministic function of its content in the documented notation: kind, names, operator, value (with control characters escaped), flags, bounds (unless the default), scope, and all children in order and properly bracketed. "
    "Two trees with the same content print the same, whether parsed or built, with or without locations, and printing enumeration members and locations gives their plain values.",
    ["inputs", "programs"], "all trees and nodes, flag sets, bounds and values",
    "The tests compare the printed form of a few queries only.",
    [P], [("__str__ of every node class", P)], ["str() of nodes"])
add("C21", "The FCS 2.2 validator objects to exactly the right conditions",
    "For any tree and any settings, the validator reports an error exactly for each condition whose layer is not allowed (by the given list, else by the standard layers, with custom x-... layers and the legacy layer word giving a warning only) and for each qualifier that is not allowed for its layer by the given qualifier list, and warns exactly about unqualified pos conditions without flags whose value is neither a UD17 tag nor looks like a regular expression. "
    "Objections come in document order, the first entry for a layer in the qualifier list counts, and a value looks like a regular expression exactly when it contains a character, other than the space, that regular-expression escaping would change.",
    ["inputs", "configurations"], "all trees, layer names, qualifiers, values and validator settings",
    "The tests validate a few queries with default settings.",
    [V], [("FCSQLValidator.visit_Expression", V), ("is_likely_a_regex", V), ("UNIVERSAL_POS_TAGS, KNOWN_LAYER_IDENTIFIERS", V)], ["errors and warnings of the validator"])
add("C22", "Validation messages name the culprit and its place",
    "Each error or warning of a validation, by the built-in or a user-defined validator, carries the severity as its type, the location of the node complained about (none if the node has none), exactly the text of the query at that location as fragment (none without location or query text, which may be given at construction or per call, the latter counting), and a message naming the offending names, values and the allowed alternatives. "
    "An objection that is raised instead carries the same message, node and fragment.",
    ["inputs", "configurations"], "all objections on all trees and ways of passing the query text",
    "The tests look at one or two messages.",
    [V], [("validation_error / validation_warning", V), ("SpecificationValidationError", V)], ["details, raised exceptions"])
add("C23", "All ways to validate agree",
    "For one tree and one set of rules, raising at the first violation, collecting, asking for a yes/no answer, passing the query text early or late, and the convenience function (which collects or answers yes/no) agree: raising mode raises exactly when collecting finds an error (or, when warnings count as errors, a warning), the raised objection is the first one in document order, and the answer is yes exactly when nothing is raised. "
    "Counting warnings as errors changes verdicts only, never which errors and warnings are collected; unless told otherwise, a validator raises and warnings are not errors.",
    ["configurations", "inputs"], "all trees, validators (built-in and user-defined) and combinations of modes",
    "The tests try few combinations; the agreement is a relation between modes.",
    [V, I], [("validate / is_valid / validation_error / validation_warning", V), ("validate", I)], ["results of the modes"])
add("C24", "Validators can be reused and always know the current parent",
    "A validator object used for any number of trees (or parts of trees), in any mode, after failed, raised or aborted validations, behaves like a new one with the same settings, and two validators never influence each other. "
    "Inside a handler the reported parent is the parent of the node at hand within the validated part (none for its top), before and after the children are visited.",
    ["histories", "inputs"], "all histories of validations on one object, including aborted ones, and all handlers",
    "The tests use each validator once.",
    [V], [("reset of errors, warnings and stack", V + " Validator.validate"), ("stack handling in visit_*", V)], ["results, parent_node"], [("stack", "parents of the node at hand", V + " Validator.stack")])
add("C25", "The convenience validation function is total and truthful",
    "validate() never fails for any text with a known version: it returns True or False, or a list of error details that is empty exactly when the verdict is True; it is True exactly when the text is a query the validator registered for the version has no objection to (warnings count only if asked for), and the list holds the parser's or the validator's details. "
    "An unknown version raises ValueError, and validators registered by the application are used and can be removed again without a trace.",
    ["inputs", "configurations"], "all texts, versions and options, including texts that can only just be parsed",
    "The tests call it with about ten texts.",
    [I, V], [("validate", I), ("VALIDATORS", V)], ["result of validate()"])
add("C26", "The low-level interface exposes the exact tokens and parse tree",
    "antlr_parse() raises its SyntaxError, naming line and column of the first problem, exactly for texts that do not match the grammar; otherwise it returns the parse tree the grammar prescribes: every rule context has the right children, tokens, parent and token range, and its accessors give exactly its children of that name. "
    "The token stream has the grammar's token kinds, texts and positions, listeners are told about entering and leaving every context once and properly nested, and visitors reach every context through the handler of its rule.",
    ["inputs", "programs"], "all texts, and all listener and visitor classes",
    "The tests call it on a few texts and hardly look inside the returned tree.",
    [I, GP, GL, GLI, GVI], [("antlr_parse, ExceptionThrowingErrorListener", I), ("generated contexts, accessors, enterRule/exitRule/accept", GP), ("listener", GLI), ("visitor", GVI)], ["tokens, contexts, events"])
add("C27", "Logging never changes results and stays under the user's control",
    "Whatever the logging configuration is (debug output on or off for any of the package's loggers, filters, disabled, switched between calls), every text gives the same verdict, tree, error details and validation result. "
    "Every record can be formatted for every query (also with percent signs, braces and odd characters), comes from a logger of the package, is below warning level, and the library itself never changes levels, handlers or other logging settings.",
    ["configurations", "inputs"], "all logging set-ups combined with all texts",
    "The tests run with one logging configuration; debug branches are otherwise not executed.",
    [P, V], [("LOGGER.isEnabledFor / LOGGER.debug calls", P)], ["log records, results"])
add("C28", "The work a query causes stays in proportion to its size",
    "Parsing, rendering, visiting and validating a query takes a number of steps that grows with its length no faster than the grammar's prediction requires: about linear for lists, sequences, alternatives, nesting, literals, white space and malformed texts, and low polynomial for nested mixtures of operators. "
    "Parsing the same texts again and again never becomes more expensive.",
    ["inputs", "histories"], "families of texts of growing length and depth, from a cold start and after many repetitions",
    "Tests use short texts; growth shows only with size or repetition.",
    [P, V, GP], [("builder visits each context once", P), ("decision caches", GP), ("visitors and validators visit each node once", P + " / " + V)], ["executed lines, processor time"])
add("C29", "The same answers under every interpreter setting and environment",
    "Verdicts, trees, printed forms, error details and validation results for a text do not depend on hash randomisation, optimisation flags (-O, -OO), warnings turned into errors, development mode, locale, encodings, time zone, working directory, environment variables, closed standard streams, the user running the process, the thread used, the order in which the package's modules are imported, or the order of calls.",
    ["configurations", "inputs"], "all such settings combined with all texts",
    "The tests run under one interpreter setting.",
    [P, V, I], [("no assert with side effects, no set-order dependent output", P), ("imports", I)], ["results across processes"])
add("C30", "Nothing of a finished query stays behind",
    "Once the caller drops its results, no tree, parse context, token, error detail, parser, validator or query text of a finished call is kept alive by the library, whether the call succeeded, was rejected or was interrupted, in any thread; a parser or validator object that is kept holds on to at most its last call. "
    "The memory of a long-running process therefore does not grow with the number of queries it served.",
    ["histories"], "all long histories of calls through every entry point",
    "Tests end after a few calls and do not look at memory.",
    [P, V, I], [("no module-level registries or caches of results", P + " / " + V + " / " + I)], ["live objects, allocated memory"])
add("C31", "Settings apply exactly as given, to one parser, from the next query on",
    "The default identifier and the default operator of a parser affect bare literals only, the normalisation form affects literal values only, and the location switch affects locations only; none of them affects whether a text is accepted or what is wrong with it. "
    "Settings hold for their own parser object alone, changing them on an object takes effect with the next query, parsing never changes them, and without settings the documented defaults apply (text, =, NFC; no locations on parser objects, locations in the module function unless switched off).",
    ["configurations", "histories", "inputs"], "all settings, changed at any time, on any number of parsers, with all texts",
    "The tests use default settings nearly everywhere.",
    [P, I], [("QueryParser.__init__", P), ("use of the settings in the tree builder", P), ("parse", I)], ["results under different settings"])
add("C32", "Calls have no side effects",
    "Parsing, validating, printing and visiting, whatever the text and the outcome, read and write no files, start no processes or threads, use no network, execute nothing from the text, print nothing, cause no warnings, do not wait, "
    "and change no setting of the process or the interpreter (recursion limit, garbage collector, warnings, locale, signals, environment, directory, random numbers, streams, logging set-up), not even for a moment, nor anything in other modules. "
    "Only antlr_parse may also report a syntax problem on standard error.",
    ["inputs", "histories"], "all texts through all entry points, with every outcome",
    "The tests look at results only; a program that embeds the library suffers from everything else a call does.",
    [P, V, I], [("QueryParser.parse: removes the console listeners", P), ("all entry points", I)], ["audit events, process state, output"])
add("C33", "Results survive copying and pickling",
    "A deep copy or a pickled and restored version (also in another process) of a tree, a location, an error detail, an exception of the library, a parser or a validator has the same content as the original: same structure, values, operators, flags, scopes, locations, messages, nodes and settings, "
    "with parents inside the copy, nothing shared with the original, and the same answers, printed form and validation result. Copying changes nothing. Error details and locations with the same content are equal and hash alike.",
    ["inputs", "programs"], "all trees, parsed or built, all details, exceptions, parsers and validators (up to Python's own depth limit), all ways of copying",
    "The tests never copy or pickle anything; worker processes and caches do.",
    [P, V], [("plain attributes only in QueryNode, ErrorDetail, SourceLocation", P), ("SpecificationValidationError.__reduce__", V), ("Enum classes", P)], ["copies"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for row in ROWS:
            assert len(row["title"]) <= 80, (row["id"], len(row["title"]))
            fh.write(json.dumps(row) + "\n")
