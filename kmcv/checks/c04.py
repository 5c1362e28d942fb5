"""C04: custom rates see the true surroundings and are always up to date."""
import math
import random

from kmcv import calc, drive, gen, geom, trace
from kmcv.worker import Skip

QUICK, THOROUGH = 700, 9000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"calc": "plus" if i % 6 == 5 else True}
        if i % 3 == 0:
            opts["open_ok"] = False
        if i % 4 == 1:
            opts["mode"] = "bucket"
        if i % 7 == 2:
            opts["implicit"] = False
        if i % 5 == 3:
            opts["shells"] = 2
        yield {"kind": "walk", "seed": "%d-c04-%d" % (seed, i), "opts": opts, "steps": 120 if i % 25 == 0 else 20,
               "again": i % 6 == 0}
    for i in range(n // 40):
        yield {"kind": "ising", "seed": seed * 1000 + i, "steps": 150}
        yield {"kind": "buckets", "seed": seed * 1000 + i, "steps": 150}
        yield {"kind": "whole", "seed": "%d-c04w-%d" % (seed, i)}


def rel_key(r):
    return tuple(int(round(x * 1000)) for x in r)


def check_call(ctx, w, content, call):
    """One recorded call of the calculator against the configuration it was made for."""
    geo, before, after, k, number, glob, v = call
    ref = w.ref
    ctx.count("calls")
    if not 0 <= number < len(ref.procs):
        return "a rate is asked for process %s" % number
    p = ref.procs[number]
    site = None
    for s in range(ref.lat.n):
        c = ref.lat.coord(s)
        if max(abs(c[d] - glob[d]) for d in range(3)) < 1e-6:
            site = s
    if site is None:
        return "the coordinate %s handed to the calculator is no site" % (glob,)
    if ref.lat.cell(site)[3] not in p.offs:
        return "process %d is evaluated at site %d where it cannot happen" % (number, site)
    if k != p.rate:
        return "rate constant %r instead of %r is handed over for process %d" % (k, p.rate, number)
    near = ref.within(site, ref.cutoff(p))
    if len(geo) != len(near) or len(before) != len(near) or len(after) != len(near):
        return "process %d at site %d is shown %d coordinates, %d and %d contents, but %d sites are within the cutoff %g" % (
            number, site, len(geo), len(before), len(after), len(near), ref.cutoff(p))
    d = [geom.norm(g) for g in geo]
    if any(b < a - 1e-4 for a, b in zip(d, d[1:])):
        return "the coordinates for process %d at site %d are not in order of distance: %s" % (number, site, d)
    want = {}
    for dist, rel, t in near:
        want.setdefault(rel_key(rel), t)
    # half a period counts for either side
    new = ref.apply(p, site, content)
    alt = ref.apply_as_is(p, site, content) if ref.cut(p, site) else new
    seen = set()
    for g, b, a in zip(geo, before, after):
        t = want.get(rel_key(g))
        if t is None:
            near_keys = [x for x in want if max(abs(x[i] - g[i] * 1000) for i in range(3)) < 1.5]
            t = want[near_keys[0]] if near_keys else None
        if t is None or t in seen:
            return "process %d at site %d is shown %s, which is %s" % (
                number, site, g, "no site within the cutoff" if t is None else "a site shown before")
        seen.add(t)
        if b != geom.show(content[t]):
            return "process %d at site %d: %r is shown at %s where the configuration has %r" % (
                number, site, b, g, geom.show(content[t]))
        if a != geom.show(new[t]):
            if a == geom.show(alt[t]):
                ctx.known_finding("open-edge-after", "")
                ctx.count("known_edge_calls")
                continue
            return "process %d at site %d: %r is shown for %s after the event, which leaves %r there" % (
                number, site, a, g, geom.show(new[t]))
    ctx.seen("call", hash(str(w.spec["procs"][number]["coords"])), before, after)
    return None


def monitor(ctx, w, log):
    # all calls since the last look were made for the configuration that is now in force
    for call in log:
        msg = check_call(ctx, w, w.content, call)
        if msg:
            ctx.violation("step %s: %s" % (w.step, msg), spec=w.spec, content=w.content)
            break
    del log[:]
    ctx.count("states")
    total = 0.0
    inter = w.model._backend().interactions()
    ideal = w.ref.enabled(w.content)
    for p, bp, a in zip(w.ref.procs, procs_of(inter), w.act):
        for s in sorted(set(a) ^ set(ideal[p.number])):
            if not (0 <= s < w.ref.lat.n and w.ref.cut(p, s) and w.ref.as_is(p, s, w.content) == (s in a)):
                ctx.violation("step %s: process %d %s a rate at site %s" % (w.step, p.number, "has" if s in a else "should have", s),
                              spec=w.spec, content=w.content)
                return
        vals = []
        for s in a:
            if w.ref.cut(p, s) and w.bucket:
                vals = None
                break
            vals.append(calc.reference(w.ref, p, s, w.content))
        if vals is None:
            total = None
            continue
        ctx.count("rates_in_force", len(vals))
        got = float(bp.totalRate())
        want = math.fsum(vals)
        if total is not None:
            total += want
        if abs(got - want) > 1e-9 * max(want, 1e-300) and abs(got - want) > 1e-9 * max(w.top, want):
            ctx.violation("step %s: the rates in force for process %d sum up to %r instead of %r" % (w.step, p.number, got, want),
                          spec=w.spec, content=w.content)
            return
        w.top = max(w.top, 0.0)
    if total is not None:
        got = float(inter.totalRate())
        ctx.expect(abs(got - total) <= 1e-9 * max(total, 1e-300), "step %s: total rate %r instead of %r" % (w.step, got, total),
                   spec=w.spec)


def procs_of(inter):
    return [p for p in inter.processes()]


def run_case(ctx, case):
    if case["kind"] in ("ising", "buckets"):
        return builtin(ctx, case)
    if case["kind"] == "whole":
        # a cutoff that covers the whole lattice
        rng = random.Random(case["seed"])
        spec = gen.model(rng, calc=True, max_sites=30, implicit=True)
        reps = spec["reps"]
        if any(spec["periodic"][d] and reps[d] > 1 for d in range(3)):
            spec["periodic"] = [False, False, False]
        spec["calc"]["cutoff"] = float(rng.choice([3.0, 5.5, 20.0]))
        case = dict(case, steps=15)
    else:
        spec = trace.spec_for(case)
    log = []
    spec["calc"]["cache"] = spec["calc"]["cache"] and case.get("cache", False)
    model = trace.build(spec, log)
    w = trace.Walk(spec, model)
    w.top = 0.0
    w.monitors.append(lambda w: monitor(ctx, w, log))
    r = w.run(case["steps"])
    if r is None and case.get("again"):
        w.run(10, seed=spec["seed"] // 3 + 7)
    ctx.count("steps", w.total)
    ctx.count("mode_" + spec["mode"])
    ctx.sample({"spec": spec, "steps": w.total})


def builtin(ctx, case):
    """The calculators written in C++ against the same rates written in Python."""
    import KMCLib
    rng = random.Random(case["seed"])
    n = rng.choice([4, 5, 6])
    spec = {"cell": gen.CELLS[0], "basis": [[0.0, 0.0, 0.0]], "reps": [n, n, 1], "periodic": [True, True, False],
            "implicit": True, "rng": "MT", "seed": rng.randrange(1, 1 << 30), "calc": None}
    around = [[0.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]]
    if case["kind"] == "ising":
        spec.update(mode="plain", ptypes=["U", "D"], types=[rng.choice("UD") for _ in range(n * n)],
                    procs=[{"coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "bsites": [0], "rate": 1.0}
                           for a, b in (("U", "D"), ("D", "U"))])

        def rate(geometry, before, after, k, number, glob):
            up = sum(x == "U" for x in before[1:5])
            return min(1.0, math.exp((4 - 2 * up) if number == 0 else (2 * up - 4)))
        name = "IsingTestCalculator"
    else:
        procs = [{"coords": around[:1], "match": [[[1, "*"]]], "update": [[[1, "B"]]], "bsites": [0], "rate": 1.0}]
        for d in ([1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0]):
            procs.append({"coords": [[0.0, 0.0, 0.0], d], "match": [[[1, "B"]], [[1, "*"]]],
                          "update": [[[-1, "B"]], [[1, "B"]]], "bsites": [0], "rate": 1.0})
        spec.update(mode="bucket", ptypes=["A", "B"], procs=procs,
                    types=[[[rng.randint(1, 2), "B"]] if rng.random() < 0.3 else [] for _ in range(n * n)])
        nb = {1: 4, 2: 1, 3: 3, 4: 2}

        def rate(geometry, before, after, k, number, glob):
            if number == 0:
                return 0.1
            return 0.1 if dict((t, m) for m, t in before[nb[number]]).get("B", 0) else 1.0
        name = "BucketsTestCalculator"

    class Same(KMCLib.KMCRateCalculatorPlugin):
        def rate(self, geometry, before, after, k, number, glob):
            return rate(geometry, before, after, k, number, glob)

        def cutoff(self):
            return 1.0

    traces = []
    for c in (name, Same):
        m = gen.realize_interactions(spec)
        m.setRateCalculator(c)
        model = KMCLib.KMCLatticeModel(configuration=gen.realize_config(spec), interactions=m)
        tr = []
        drive.run(model, spec, case["steps"], lambda step, t, conf: tr.append(
            (step, t, conf.latestEventProcess(), conf.latestEventSite(), tuple(map(tuple, conf.types())))))
        traces.append(tr)
    ctx.count("builtin_steps", len(traces[0]))
    ctx.expect(len(traces[0]) > 10, "the builtin calculator stopped after %d steps" % len(traces[0]))
    for a, b in zip(*traces):
        if a[0] != b[0] or abs(a[1] - b[1]) > 1e-9 * max(abs(a[1]), 1e-30) or (a[0] and a[2:] != b[2:]):
            ctx.violation("the builtin %s and the same rates in Python part at step %s: %s / %s" % (name, a[0], a[:4], b[:4]))
            break
        ctx.seen(case["kind"], a[2], a[3])
