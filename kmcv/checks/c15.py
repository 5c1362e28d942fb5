"""C15: no accepted input makes the library touch memory it does not own or execute undefined behaviour.

Sanitizers judge here: AddressSanitizer, UndefinedBehaviorSanitizer and checked containers in one build, and
valgrind's memcheck (uninitialised values as well) over the optimised build.  What the runs compute is judged
by the other checks.
"""
import importlib
import json
import os
import re
import subprocess

from kmcv import build, hostile
from kmcv.worker import Ctx, Skip

# workloads of the other properties, and how many cases of each
OTHERS = {"c01": 60, "c02": 40, "c03": 40, "c04": 40, "c05": 24, "c06": 40, "c07": 60, "c08": 60, "c09": 60, "c10": 60, "c11": 50,
          "c12": 40, "c13": 90, "c16": 60, "c17": 40, "c18": 50, "c19": 50}


def cases(tier, seed, variant):
    q = tier == "quick"
    here = os.path.dirname(os.path.abspath(__file__))
    for i in range(2 if q else 40):
        yield {"kind": "memcheck", "seed": "%d-c15m-%d" % (seed, i), "n": 36}
    for c in hostile.cases("%d-c15h" % seed, 700 if q else 12000):
        yield {"kind": "hostile", "case": c}
    for name in sorted(OTHERS):
        if not os.path.exists(os.path.join(here, name + ".py")):
            continue
        mod = importlib.import_module("kmcv.checks." + name)
        want = OTHERS[name] * (1 if q else 15)
        every = [c for c in mod.cases(tier, seed + 7, "asan") if c.get("kind") not in getattr(mod, "NO_SANITIZER", ())]
        step = max(1, len(every) // want)
        for c in every[::step]:
            if c.get("steps", 0) > 400:
                c["steps"] = 400
            yield {"kind": "other", "check": name, "case": c}


class Quiet(Ctx):
    """Another check's context; what it finds is not this check's business."""

    def __init__(self, parent):
        self.__dict__.update(parent.__dict__)
        import collections
        self.counts, self.distinct, self.violations, self.known, self.samples, self.emits = collections.Counter(), set(), [], {}, [], []

    def violation(self, msg, **detail):
        self.counts["violations"] += 1

    def expect(self, cond, msg, **detail):
        return cond


def memcheck(ctx, case):
    dest = os.path.join(os.environ["KMCV_TOP"], "plain")
    env = build.env_for(dest, "plain", PYTHONMALLOC="malloc")
    log = os.path.join(ctx.scratch, "valgrind.txt")
    p = subprocess.run(["valgrind", "--error-limit=no", "--num-callers=30", "--log-file=" + log, build.PY, "-m", "kmcv.hostile",
                        case["seed"], str(case["n"])], env=env, cwd=ctx.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=230)
    out = p.stdout.decode(errors="replace")
    text = open(log, errors="replace").read()
    played = len(re.findall(r"^PLAYED ", out, re.M))
    ctx.count("memcheck_workloads", played)
    bad = []
    for block in re.split(r"^==\d+== *\n", text, flags=re.M):
        if ("_Backend.so" in block or "_Custom.so" in block) and re.search(r"Invalid (read|write|free)|uninitialised|overlap|Mismatched free|Process terminating", block):
            bad.append(re.sub(r"^==\d+== ?", "", block, flags=re.M))
    for b in bad[:2]:
        ctx.violation("memcheck: %s" % b[:900], log=b)
    if p.returncode != 0 and not bad:
        ctx.violation("under memcheck the process ends with status %s: %s" % (p.returncode, out[-600:]), log=text[-3000:])
    ctx.sample({"memcheck": case, "workloads": played, "errors": len(bad)})


def run_case(ctx, case):
    if case["kind"] == "memcheck":
        return memcheck(ctx, case)
    if case["kind"] == "hostile":
        r = hostile.play(case["case"])
        ctx.count("hostile_" + case["case"]["kind"])
        ctx.count("hostile_" + r)
        ctx.seen("hostile", case["case"]["kind"], case["case"]["seed"])
        return
    mod = importlib.import_module("kmcv.checks." + case["check"])
    sub = Quiet(ctx)
    try:
        mod.run_case(sub, case["case"])
    except Skip:
        pass
    except Exception as e:
        # judged elsewhere
        ctx.count("other_exceptions")
    finally:
        os.chdir(ctx.scratch)
    ctx.count("workloads_" + case["check"])
    ctx.count("observations", sum(sub.counts.values()))
    ctx.seen(case["check"], json.dumps(case["case"], sort_keys=True))
