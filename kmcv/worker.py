"""Runs one shard of the cases of a check inside the environment of one build of the library.

usage: python -m kmcv.worker CHECK VARIANT SHARD NSHARDS OUT   (or  ... --replay FILE OUT)
A check module has cases(tier, seed, variant) -> iterable of JSON-able dicts, and run_case(ctx, case).
"""
import collections
import importlib
import json
import os
import sys
import time
import traceback


class Skip(Exception):
    """The case turned out not to be one the property speaks about."""


class Ctx(object):
    def __init__(self, check, variant, out, shard, tier, seed):
        self.check, self.variant, self.out, self.shard = check, variant, out, shard
        self.tier, self.seed = tier, seed
        self.counts = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.known = {}
        self.samples = []
        self.emits = []
        self.case = None
        self.case_t0 = 0
        self.ncases = 0
        self.skipped = 0
        self.slow = []
        self.scratch = os.path.join(out, "w-%s-%d" % (variant, shard))
        os.makedirs(self.scratch, exist_ok=True)
        os.chdir(self.scratch)
        self.cur = os.path.join(out, "cur-%s-%d.json" % (variant, shard))

    # -- used by checks ------------------------------------------------------------------------
    def count(self, key, n=1):
        self.counts[key] += n

    def seen(self, *what):
        """Record a distinct non-trivial thing that was observed."""
        self.distinct.add(hash(what))

    def violation(self, msg, **detail):
        if len([v for v in self.violations if v["case"] is self.case]) < 3 and len(self.violations) < 40:
            self.violations.append({"msg": msg, "detail": detail, "case": self.case})

    def expect(self, cond, msg, **detail):
        self.counts["assertions"] += 1
        if not cond:
            self.violation(msg, **detail)
        return cond

    def known_finding(self, key, what):
        self.known.setdefault(key, what)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def emit(self, d):
        self.emits.append(d)

    # -- running -------------------------------------------------------------------------------
    def begin(self, case):
        self.case = case
        self.case_t0 = time.time()
        with open(self.cur, "w") as f:
            json.dump({"case": case, "variant": self.variant}, f)

    def result(self, done):
        return {"counts": dict(self.counts), "distinct": sorted(self.distinct), "violations": self.violations,
                "known": self.known, "samples": self.samples, "emits": self.emits, "ncases": self.ncases,
                "skipped": self.skipped, "done": done, "slow": self.slow}

    def save(self, done):
        p = os.path.join(self.out, "res-%s-%d.json" % (self.variant, self.shard))
        with open(p + ".tmp", "w") as f:
            json.dump(self.result(done), f, default=repr)
        os.replace(p + ".tmp", p)


def run_one(mod, ctx, case):
    ctx.begin(case)
    try:
        mod.run_case(ctx, case)
        ctx.ncases += 1
    except Skip:
        ctx.skipped += 1
    except Exception as e:
        # No case raises anything on a tree where the property holds: either the library raised where it must
        # not, or it handed out something that cannot be interpreted.
        ctx.violation("unexpected %s: %s" % (type(e).__name__, e), traceback=traceback.format_exc()[-4000:])
        ctx.ncases += 1


def main():
    if sys.argv[1] == "--replay":
        check, variant, path, out = sys.argv[2:6]
        shard, nshards = 0, 1
        replay = json.load(open(path))
    else:
        check, variant, shard, nshards, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
        replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = float(os.environ.get("KMCV_DEADLINE", "0")) or None
    mod = importlib.import_module("kmcv.checks." + check.lower())
    ctx = Ctx(check, variant, out, shard, tier, seed)
    if replay is not None:
        run_one(mod, ctx, replay["case"])
        ctx.save(True)
        return
    done = True
    for i, case in enumerate(mod.cases(tier, seed, variant)):
        if i % nshards != shard:
            continue
        if deadline and time.time() > deadline:
            done = False
            break
        run_one(mod, ctx, case)
        ctx.slow = sorted(ctx.slow + [(round(time.time() - ctx.case_t0, 2), case)], key=lambda x: -x[0])[:3]
        if len(ctx.violations) >= 10:
            break
    ctx.save(done)
    # a clean shutdown must work as well: nothing below, the interpreter tears the objects down now
    ctx.begin({"kind": "interpreter shutdown"})


if __name__ == "__main__":
    sys.modules["kmcv.worker"] = sys.modules["__main__"]
    main()
