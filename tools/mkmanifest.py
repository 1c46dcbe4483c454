"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("monitored execution against an independent grammar oracle", "verdicts of three entry points compared with a hand-written lexer, backtracking parser and meaning rules; trusts that reference and the texts generated"),
    "C02": ("monitored execution against a reference tree", "tree outlines compared with an independent parser and with labels carried through generation"),
    "C03": ("monitored execution against a precedence oracle", "trees compared with an independent precedence parser; one known finding (NOT swallowing an OR) is recognised by its mechanism"),
    "C04": ("monitored execution against the query text", "names and operators compared with the reference; exhaustive over a keyword-heavy vocabulary"),
    "C05": ("monitored execution against an independent decoder", "values compared with an independent decoder; every code point in the thorough tier"),
    "C06": ("monitored execution against a set model of flags", "exhaustive for flag strings up to length 4 (5), sampled beyond"),
    "C07": ("monitored execution against a bounds model", "exhaustive grid of bounds, large and malformed numbers, random queries"),
    "C08": ("monitored execution against the scope table", "every scope word and near misses x bodies x layouts"),
    "C09": ("invariant monitor on source locations", "nesting, order, exactness against reference spans; slices parsed again"),
    "C10": ("metamorphic monitor: equivalent spellings", "pairs of spellings of one query give the same tree"),
    "C11": ("exception and side-effect monitor", "every outcome classified; file descriptors, warnings and process state watched"),
    "C12": ("error-place oracle", "reported places compared with the first token no query can continue at, computed by the reference"),
    "C13": ("history checker against a stateless model", "long histories compared with first answers, the model and fresh processes"),
    "C14": ("schedule fuzzing with a per-thread oracle", "threads with yields injected at executed lines by sys.monitoring; distinct switch points counted; each result compared with the model"),
    "C15": ("crash injection at executed lines", "asynchronous exceptions raised at counted lines and lack of stack at every depth, probes afterwards"),
    "C16": ("aliasing monitor on object identity", "all reachable mutable objects of several results; snapshots before and after each use"),
    "C17": ("structural invariant monitor", "every look-up on every node compared with a list model"),
    "C18": ("answers compared with the construction and the text", "every question with true, near and false arguments on all nodes"),
    "C19": ("event-trace checker for visitors", "handler events compared with a document-order model under random visitor classes"),
    "C20": ("monitored rendering against a notation model", "each printed form compared with an independent renderer"),
    "C21": ("monitored validation against a rule model", "objections compared with an independent statement of the rules, in order"),
    "C22": ("message monitor", "type, place, fragment and named values of each objection compared with the node complained about"),
    "C23": ("cross-mode agreement checker", "one tree through all modes and entry points"),
    "C24": ("history checker for reused validators", "each step compared with a fresh validator; parents recorded in every handler"),
    "C25": ("monitored execution against parser and validator", "every option for every text compared with the composition of the parts"),
    "C26": ("token, tree and event trace checker", "tokens, contexts, accessors and events compared with the reference parse"),
    "C27": ("differential execution under logging set-ups", "results under eight logging set-ups compared; every record formatted; logging state watched"),
    "C28": ("step counting with sys.monitoring", "executed lines against committed reference counts with a wide factor, per-element bounds of the library's own steps, repetition growth; one known finding (NOT chains)"),
    "C29": ("differential execution across process environments", "a battery of texts in about thirty kinds of processes, compared with each other and the model"),
    "C30": ("live-object census and memory tracing", "objects of every type of the library counted after collection; traced memory per query bounded"),
    "C31": ("monitored execution under changing settings", "several parsers with changing settings compared with the model"),
    "C32": ("side-effect monitor", "audit hook, stand-ins for the setters of process-wide settings, captured descriptors, snapshots of process state and of other modules' names around every call"),
    "C33": ("copy monitor", "each result compared with its deep copy and its pickled version, in this and another process; identities of mutable parts disjoint"),
}

checks = []
for pid in sorted(T):
    tech, note = T[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 -m vf.run {pid} --tier quick", "thorough_cmd": f"python3 -m vf.run {pid} --tier thorough",
                   "technique": "runtime monitoring: " + tech, "level": "fault_enumeration" if pid == "C15" else "exploration",
                   "level_note": "Held on the executions run, not proved: " + note + "."})
json.dump({"version": 1, "setup_cmd": "python3 -m vf.selftest 2000 1", "checks": checks, "not_applicable": [],
           "notes": "The library is pure Python, so nothing is compiled and no hooks are needed in /repo: the checks import /repo/src and instrument it from outside (sys.monitoring, tracing exceptions, object census). Exit 2 means the monitors observed too little to say anything."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
