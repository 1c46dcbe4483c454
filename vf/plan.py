"""Static settings of every check: workload sizes, minimum observations, evidence texts."""

PLAN = {
    "C01": {"n": 16000, "min": {"valid:accepted": 1000, "hostile:rejected": 1000, "tokens:accepted": 10, "char:accepted": 1000}, "distinct": 3000,
            "rule": "all token strings of length <= 3 (thorough: a third of length 4), those strings inside 8 contexts (length 3 sampled), characters of the BMP in 8 roles, parts up to 10000 characters long, random valid / mutated / token-soup / noise texts; distinct = distinct (kind, verdict, token-kind prefix, character) combinations"},
    "C02": {"n": 16000, "min": {"trees observed": 2000, "enumerated": 100, "deep": 10, "wide": 50}, "distinct": 1000,
            "rule": "all query-level compositions of up to 3 (thorough 4) segments with groups nested up to 2, widths 2..71, nestings up to 33, random labelled queries; distinct = distinct tree outlines"},
    "C03": {"n": 12000, "min": {"trees observed": 2000, "enumerated": 500}, "distinct": 500,
            "rule": "all infix strings of up to 4 (thorough 5) operands over & and |, 0..2 NOTs per operand and one optional parenthesis, chains up to 65 operands, random nested expressions; distinct = distinct precedence trees"},
    "C04": {"n": 12000, "min": {"trees observed": 2000, "k:pairs": 500, "k:defaults": 100}, "distinct": 2000,
            "rule": "all (qualifier, name) pairs of a keyword-heavy vocabulary, names of every length to 139 and up to 5000, default settings x queries, random queries; distinct = distinct (kind, qualifier, name, operator)"},
    "C05": {"n": 12000, "min": {"values observed": 5000, "k:codepoints": 300}, "distinct": 3000,
            "rule": "code points 0..33FF plus sampled blocks (thorough: all 1114112) raw and in every escape form, all pairs of escapes, lengths to 20000, random literals and combining sequences under 5 normalisation settings; distinct = distinct (value, form)"},
    "C06": {"n": 10000, "min": {"contradictory": 500, "consistent": 300, "literals with flags": 500}, "distinct": 1000,
            "rule": "all flag strings of length <= 4 (thorough 5) in 6 contexts, long ones to 257, random queries; distinct = distinct flag strings"},
    "C07": {"n": 12000, "min": {"pairs": 300, "values": 1000, "repetitions observed": 3000, "rejected": 200}, "distinct": 1000,
            "rule": "all {a,b} with a,b < 26 (thorough 60), single values 0..399 and up to 10^1000 in 11 forms, malformed forms, random queries; distinct = distinct sequences of bounds"},
    "C08": {"n": 8000, "min": {"scopes": 200, "rejected": 300, "random": 1000, "scope:Session": 50}, "distinct": 300,
            "rule": "12 bodies x 10 scope words x 4 layouts, bodies x 50 non-scopes, misplaced clauses, random queries with and without a clause; distinct = distinct (scope, tree outline)"},
    "C09": {"n": 12000, "min": {"locations observed": 20000, "slices re-parsed": 2000}, "distinct": 500,
            "rule": "random queries in odd layouts incl. astral characters and line breaks; distinct = distinct (outline, multi-line, long)"},
    "C10": {"n": 16000, "min": {"pairs compared": 3000, "each-ws": 300}, "distinct": 500,
            "rule": "each of the 25 white-space characters in every gap of 5 queries, random queries re-laid-out and re-spelled (quotes, escapes, flag letters, scope words, repetition forms); distinct = distinct tree outlines"},
    "C11": {"n": 16000, "min": {"rejections observed": 5000, "trees observed": 2000, "extreme": 100, "meaning": 1000}, "distinct": 2500,
            "rule": "hostile, mutated, extreme (deep, long, surrogate, control-character) and meaningless texts and single characters, each through parse(), can_parse() and a parser object with file descriptors 1/2, warnings and process state watched; distinct = distinct (kind, outcome, message shape)"},
    "C12": {"n": 16000, "min": {"details observed": 6000, "places compared": 2500, "texts with unusable characters": 1500, "accepted": 500}, "distinct": 3000,
            "rule": "valid queries broken at a random place, mutated and hostile texts, meaningless texts and fixed corner cases; distinct = distinct (token prefix, offending token, number of details)"},
    "C13": {"n": 24, "min": {"steps observed": 10000, "repetitions compared": 3000, "results vandalised": 1000, "compared with a fresh process": 300, "old results re-read": 500}, "distinct": 4000,
            "rule": "long histories of parses over a pool of twins (texts that differ in one detail), failures and vandalised results on several parser objects, compared with the first answer, with the reference and with fresh processes; distinct = distinct (text, settings) pairs"},
    "C14": {"n": 220, "min": {"rounds": 120, "cold rounds": 15, "operations observed": 4000, "line events": 1000000, "distinct switch points (per round)": 50000}, "distinct": 20000,
            "rule": "rounds of 2..8 threads on own / shared / module-level / validating / shared-tree operations with processor yields injected at random executed lines, warm and in fresh processes; distinct = distinct (round, thread, switched-from line) switch points"},
    "C15": {"n": 900, "min": {"crash points hit": 3000, "probes after an interruption": 15000, "validation interrupted": 300, "outcome:propagated": 2000, "stack:ok": 200}, "distinct": 1000,
            "rule": "KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError raised at chosen executed lines of a parse or validation, and a lack of stack at every depth, each followed by probes of the same and of new objects; distinct = distinct (line interrupted, kind of exception, operation)"},
    "C16": {"n": 4000, "min": {"objects compared for identity": 100000, "uses observed": 15000, "results vandalised": 3000, "error lists held": 7000}, "distinct": 1500,
            "rule": "pairs and histories of results: identity of every reachable mutable object, every reading use followed by a comparison with the snapshot, vandalised results followed by new parses; distinct = distinct sets of texts compared"},
    "C17": {"n": 9000, "min": {"look-ups observed": 1000000, "named look-ups observed": 10000, "k:parsed": 3000, "k:hand": 1000, "k:node": 1000}, "distinct": 2500,
            "rule": "parsed and hand-built trees, all nodes x all classes x positions around the boundaries; distinct = distinct tree outlines and constructor cases"},
    "C18": {"n": 6000, "min": {"answers observed": 300000, "conditions compared with the text": 8000, "missing arguments refused": 30000, "hand-made nodes": 1000}, "distinct": 1500,
            "rule": "every question with matching, near-matching, blank and missing arguments on every node of parsed and hand-built trees; distinct = distinct (question, argument, node kind, expected answer)"},
    "C19": {"n": 6000, "min": {"handler calls observed": 50000, "results compared": 2500, "handler exceptions propagated": 2500}, "distinct": 1500,
            "rule": "random visitor classes (handler subsets, non-continuing handlers, aggregation, stopping, raising) on parsed and hand-built trees; distinct = distinct tree outlines"},
    "C20": {"n": 9000, "min": {"nodes rendered": 40000, "k:hand": 1000, "k:parsed": 3000}, "distinct": 3000,
            "rule": "every node of parsed and hand-built trees rendered and compared with the notation, twins with and without locations, all flag sets and bounds; distinct = distinct printed forms"},
    "C21": {"n": 9000, "min": {"conditions judged": 15000, "rule:custom": 700, "rule:layer": 8000, "rule:legacy": 400, "rule:noqualifier": 3000, "rule:qualifier": 200, "rule:ud17": 250, "strings classified": 10000}, "distinct": 3000,
            "rule": "random trees x random validator settings, a grid of 20 names x 6 settings, every character of the first 0x600 and sampled blocks in the regular-expression test; distinct = distinct (tree, settings), (name, settings) and character blocks"},
    "C22": {"n": 6000, "min": {"messages observed": 4000, "custom messages observed": 15000, "raised objections compared": 1000, "rule:qualifier": 30}, "distinct": 2000,
            "rule": "objections of the built-in and a complaining-about-everything validator in raising and collecting mode, query text given at construction / per call / both / never; distinct = distinct (way of passing the text, tree, sequence of rules broken) with at least one objection"},
    "C23": {"n": 5000, "min": {"modes observed": 6000, "convenience results compared": 1500, "objected": 2000, "passed": 800}, "distinct": 1500,
            "rule": "one tree and one set of rules through all modes and entry points; distinct = distinct (tree, settings) pairs"},
    "C24": {"n": 4000, "min": {"validations observed": 12000, "aborted validations": 3000, "parents observed": 200000}, "distinct": 1300,
            "rule": "histories of 10 validations on one object incl. sub-trees, raising and aborted ones, with recorded parents in every handler; distinct = distinct (part validated, settings, result, entry point, handler that failed)"},
    "C25": {"n": 6000, "min": {"calls observed": 15000, "objections compared": 1200, "not a query": 600, "registered validators used": 2500, "unknown versions refused": 7000, "valid": 1000}, "distinct": 450,
            "rule": "texts of every kind x all options of validate(), unknown versions, registered and removed validators, texts at the stack limit; distinct = distinct (verdict, objection types, kind)"},
    "C26": {"n": 16000, "min": {"accepted": 2500, "rejected": 1500, "contexts observed": 100000, "listener events": 200000, "visitor events": 20000, "tokens observed": 60000, "accessor reads": 150000}, "distinct": 1200,
            "rule": "valid, meaningless, mutated and hostile texts through antlr_parse and the generated classes; every context, accessor, token and event compared with the reference parse; distinct = distinct (token kinds, outcome) sequences"},
    "C27": {"n": 12000, "min": {"records formatted": 100000, "with disabled": 300, "with filtered": 300, "with module debug": 300, "with package debug": 300, "with quiet": 300, "with root debug": 300, "with toggle": 300, "with untouched": 300}, "distinct": 2500,
            "rule": "8 logging set-ups x valid, meaningless and hostile texts; every record formatted; distinct = distinct (set-up, text)"},
    "C28": {"n": 1, "min": {"k:family": 150, "k:bulk": 8, "k:history": 4, "k:own": 600, "steps observed": 50000000, "repetitions measured": 800}, "distinct": 700,
            "rule": "38 families of texts of growing size from a cold start in their own process, bulk texts, repeated texts, random queries; executed lines counted by sys.monitoring; distinct = distinct (family, size, operation) measurements"},
    "C29": {"n": 1, "min": {"processes started": 40, "results compared": 4000, "compared with the model": 600}, "distinct": 2000,
            "rule": "a battery of texts in about 30 kinds of processes (flags, hash seeds, locales, streams, users, threads, import orders, call orders); distinct = distinct (variant, result) pairs"},
    "C30": {"n": 400, "min": {"queries processed": 20000, "mode:parse": 2, "mode:parser": 2, "mode:rejected": 2, "mode:meaning": 2, "mode:can_parse": 2, "mode:validate": 2, "mode:validate list": 2, "mode:validator": 2, "mode:visitor": 2, "mode:antlr": 2, "mode:interrupted": 2, "mode:threads": 2, "mode:held leaf": 2}, "distinct": 15,
            "rule": "20 modes of use (entry point, outcome, interruption, threads, kept objects) x hundreds of different queries each; census of live objects and traced memory before and after; distinct = modes"},
    "C31": {"n": 3000, "min": {"parses observed": 12000, "defaults applied": 8000, "settings changed between queries": 3000}, "distinct": 5000,
            "rule": "random settings on several parser objects used in turn, changed between queries; distinct = distinct (settings, text) pairs"},
    "C32": {"n": 6000, "min": {"calls observed": 20000, "process states compared": 2500, "trees": 700, "rejected": 700, "names in other modules compared": 50000, "monitor self-tests passed": 1}, "distinct": 1500,
            "rule": "texts of every kind through every entry point with an audit hook, stand-ins for the setters of process-wide settings, captured file descriptors and snapshots of process state and of other modules; distinct = distinct (verdict, beginning, length) of texts"},
    "C33": {"n": 6000, "min": {"nodes compared with their copy": 10000, "details copied": 1500, "exceptions copied: QueryParserException": 500, "exceptions copied: SpecificationValidationError": 500, "exceptions copied: SyntaxError": 300,
            "validators copied": 800, "results sent to another process": 300, "way:deepcopy": 200, "way:2": 200, "way:5": 200}, "distinct": 1000,
            "rule": "parsed and hand-made trees, details, exceptions, parsers and validators through deepcopy, four pickle protocols, the Python pickler and another process; distinct = distinct (way, tree outline)"},
}
