"""C05: caching of custom rates never changes a simulation."""
import collections
import random

import KMCLib

from kmcv import calc, drive, gen, trace

QUICK, THOROUGH = 500, 5000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(max(4, n // 60)):
        yield {"kind": "many", "seed": "%d-c05m-%d" % (seed, i), "steps": 700 if tier == "quick" else 2500}
    for i in range(n):
        opts = {"calc": "plus" if i % 5 == 2 else True, "max_sites": 120}
        if i % 3 == 1:
            opts["mode"] = "bucket"
        if i % 7 == 2:
            opts["implicit"] = False
        if i % 5 == 3:
            opts["shells"] = 2
        yield {"kind": "walk", "seed": "%d-c05-%d" % (seed, i), "opts": opts, "steps": 60}


def many(case):
    """Far more distinct surroundings than the cache can hold."""
    rng = random.Random(case["seed"])
    n = rng.choice([17, 20])
    types = ["A", "B", "C"]
    procs = []
    for a in types:
        for b in types:
            if a != b and rng.random() < 0.7:
                procs.append({"coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "bsites": [0], "rate": rng.uniform(0.5, 2)})
    for d in ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]):
        procs.append({"coords": [[0.0, 0.0, 0.0], d], "before": ["A", "B"], "after": ["B", "A"], "moves": None, "bsites": [0], "rate": rng.uniform(0.5, 2)})
    return {"cell": gen.CELLS[0], "basis": [[0.0, 0.0, 0.0]], "reps": [n, n, 1], "periodic": [True, True, False],
            "ptypes": types, "mode": "plain", "implicit": True, "procs": procs,
            "types": [rng.choice(types) for _ in range(n * n)], "rng": "MT", "seed": rng.randrange(1, 1 << 31),
            "calc": {"cutoff": rng.choice([1.5, 2.0]), "cache": True, "exclude": [0] if rng.random() < 0.5 else [],
                     "func": "hash", "salt": rng.randrange(1000)}}


def run_case(ctx, case):
    spec = many(case) if case["kind"] == "many" else trace.spec_for(case)
    rng = random.Random("x" + str(case["seed"]))
    if case["kind"] != "many":
        spec["calc"]["func"] = rng.choice(["hash", "hash", "count", "after"])
    exclude = spec["calc"]["exclude"]
    again = rng.random() < 0.3
    runs = {}
    for cache in (True, False):
        s = dict(spec, calc=dict(spec["calc"], cache=cache, raw=True))
        log = []
        conf = gen.realize_config(s)
        model = KMCLib.KMCLatticeModel(configuration=conf, interactions=gen.realize_interactions(s, calc.make(s["calc"], log)))
        tr = []
        bucket = spec["mode"] == "bucket"

        def look(step, t, conf):
            tr.append((step, t, conf.latestEventProcess() if step else -1, conf.latestEventSite() if step else -1,
                       float(model._backend().interactions().totalRate())))
        r = drive.run(model, s, case["steps"], look)
        if r is None and again:
            drive.run(model, s, 15, look, seed=spec["seed"] // 2 + 5)
        runs[cache] = (tr, r, log, drive.contents(conf, bucket))
    a, b = runs[True], runs[False]
    n = min(len(a[0]), len(b[0]))
    for x, y in zip(a[0], b[0]):
        if x[2:4] != y[2:4] or abs(x[1] - y[1]) > 1e-12 * max(abs(y[1]), 1e-300) or abs(x[4] - y[4]) > 1e-9 * max(y[4], 1e-300):
            ctx.violation("step %s: with caching time %r, process %s, site %s, total rate %r; without caching %r, %s, %s, %r"
                          % ((x[0], x[1], x[2], x[3], x[4]) + tuple(y[1:5])), spec=spec)
            return
        ctx.count("steps_compared")
    ctx.expect(len(a[0]) == len(b[0]) and a[1] == b[1] and a[3] == b[3], "the runs with and without caching end differently: %d and %d records, %s and %s"
               % (len(a[0]), len(b[0]), a[1], b[1]), spec=spec)
    # the calculator was asked again for every process that is excluded
    calls = [collections.Counter(c[4] for c in x[2]) for x in (a, b)]
    for p in exclude:
        ctx.count("excluded_calls", calls[1][p])
        ctx.expect(calls[0][p] == calls[1][p], "process %d is excluded from caching but was evaluated %d times instead of %d" % (
            p, calls[0][p], calls[1][p]), spec=spec)
    saved = sum(calls[1].values()) - sum(calls[0].values())
    ctx.count("evaluations_saved", max(0, saved))
    ctx.count("evaluations", sum(calls[1].values()))
    keys = set((c[4], c[1]) for c in b[2])
    ctx.count("beyond_capacity", len(keys) > 8192)
    for k in list(keys)[:2000]:
        ctx.seen(k)
    ctx.sample({"kind": case["kind"], "surroundings": len(keys), "saved": saved, "steps": n})
