"""Worker side of the harness: drives one check module and records what its monitors saw."""
import ast
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback


CASE_SECONDS = 120
MEMORY = 3 << 30


class Ctx:
    """what a check module gets: randomness, budget, and the recorder of observations"""

    def __init__(self, pid, tier, seed, worker, workers, n, wall, known):
        self.pid, self.tier, self.seed, self.worker, self.workers, self.n = pid, tier, seed, worker, workers, n
        self.rng = random.Random(f"{pid}/{seed}/{worker}")
        self.thorough = tier == "thorough"
        self.deadline = time.monotonic() + wall
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self.knowns = {}
        self.known_keys = known
        self.evaluations = 0
        self.truncated = False
        self.case = None
        self.hung = False

    # -- observations -------------------------------------------------------
    def hit(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def peak(self, name, v):
        """a maximum instead of a sum"""
        name = "max:" + name
        self.counts[name] = max(self.counts.get(name, 0), v)

    def distinct(self, *key):
        """count a distinct non-trivial observation"""
        h = hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.keys.add(int.from_bytes(h, "big"))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts -----------------------------------------------------------
    def violation(self, msg, case=None):
        case = self.case if case is None else case
        self.violations.append({"case": case, "case_py": ascii(case), "message": msg})  # JSON would join neighbouring surrogates

    def known(self, key, msg):
        """a failure of the property by a mechanism that the known-findings file may list"""
        if key in self.known_keys:
            self.knowns.setdefault(key, msg)
            self.hit("known:" + key)
        else:
            self.violation(msg)

    def share(self, total):
        """this worker's part of a total"""
        return total // self.workers + (1 if self.worker < total % self.workers else 0)

    def mine(self, items):
        """this worker's part of an enumeration"""
        for i, x in enumerate(items):
            if i % self.workers == self.worker:
                yield x


def from_repo(tb):
    """does the traceback pass through the code under test?"""
    from . import sut
    root = os.path.realpath(sut.SRC) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


class Hang(BaseException):
    """a single case used up its processor time"""


def hang(signum, frame):
    raise Hang()


IDLE = [0.0, 0]


def idle(signum, frame):
    """runs every 10 s of a case: three times without any work means blocked for good (a paused machine gives one tick at most)"""
    now = time.process_time()
    IDLE[1] = IDLE[1] + 1 if now - IDLE[0] < 0.1 else 0
    IDLE[0] = now
    if IDLE[1] >= 3:
        raise Hang()


def judge(mod, case, ctx):
    from . import sut
    ctx.case = case
    ctx.evaluations += 1
    signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_SECONDS)
    waits = getattr(mod, "WAITS", False)
    if not (waits(case) if callable(waits) else waits):  # checks that wait for other processes or threads look after themselves
        IDLE[:] = [time.process_time(), 0]
        signal.signal(signal.SIGALRM, idle)
        signal.setitimer(signal.ITIMER_REAL, 10, 10)
    try:
        mod.evaluate(case, ctx)
    except Hang as ex:
        if not from_repo(ex.__traceback__):
            raise RuntimeError("the harness itself took too long") from None
        ctx.violation(f"no result: blocked, or more than {CASE_SECONDS} s of processor time (ordinary cases take milliseconds)")
        ctx.hung = True
    except sut.Malformed as ex:
        ctx.violation(f"malformed result: {ex}")
    except Exception as ex:
        if not from_repo(ex.__traceback__) and not isinstance(ex, (TypeError, AttributeError)):
            raise  # the harness failed; but what an observed object cannot do although its documented type can is the code's doing
        tb = traceback.format_exc().splitlines()
        ctx.violation(f"unexpected {type(ex).__name__}: {str(ex)[:300]} | " + " / ".join(x.strip() for x in tb[-7:])[:900])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def work(args):
    from . import sut, words
    mod = importlib.import_module("vf.checks." + args["pid"].lower())
    ctx = Ctx(args["pid"], args["tier"], args["seed"], args["worker"], args["workers"], args["n"], args["wall"], args["known"])
    words.load(random.Random("words"), sut.SRC)
    ctx.hit("constants of the code in the dictionary (per worker)", len(words.STRINGS) + len(words.INTS))
    if args.get("replay"):
        judge(mod, ast.literal_eval(args["replay"]), ctx)
    else:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        for case in mod.cases(ctx):
            judge(mod, case, ctx)
            if len(ctx.violations) >= 3 or ctx.hung:
                break
            if time.monotonic() > ctx.deadline:
                ctx.truncated = True
                break
        if hasattr(mod, "finish"):
            ctx.case = "finish"
            mod.finish(ctx)
    return {"counts": ctx.counts, "keys": sorted(ctx.keys), "samples": ctx.samples, "violations": ctx.violations[:5],
            "knowns": ctx.knowns, "evaluations": ctx.evaluations, "truncated": ctx.truncated}


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    spec = json.load(open(sys.argv[1]))
    out = work(spec)
    tmp = spec["out"] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(out, fh)
    os.rename(tmp, spec["out"])
