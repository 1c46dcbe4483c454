"""The reference model against the generator's ground truth (no code under test involved)."""
import random
import sys
from . import gen, ref


def main(n=4000, seed=1):
    rng = random.Random(seed)
    quirk = 0
    for i in range(n):
        cfg = ref.Cfg(rng.choice(["text", "lemma"]), rng.choice(["Eq", "Ne"]), rng.choice(["NFC", "NFD", "NFKC", "NFKD", None]))
        g = gen.Gen(rng)
        text, truth = g.query(cfg=cfg)
        v = ref.analyse(text, cfg)
        if not v.ok:
            print("REF REJECTS", repr(text), v.why)
            return 1
        d = ref.diff(truth, v.tree)
        if d:
            if "!" in text:
                quirk += 1
                continue
            print("REF DIFFERS", repr(text), d)
            return 1
    print(f"selftest: {n} generated queries, reference agrees with ground truth ({quirk} NOT-quirk trees differ)")
    return 0


if __name__ == "__main__":
    sys.exit(main(*map(int, sys.argv[1:])))
