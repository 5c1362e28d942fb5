"""C02: a step performs one available event as described and changes nothing else."""
import collections
import random

from kmcv import trace

QUICK, THOROUGH = 1200, 15000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {}
        if i % 2 == 0:
            opts["open_ok"] = False
        if i % 6 == 1:
            opts["calc"] = True
        if i % 4 == 2:
            opts["mode"] = "bucket"
        if i % 11 == 3:
            opts["implicit"] = False
        if i % 9 == 4:
            opts["shells"] = 2
        yield {"kind": "walk", "seed": "%d-c02-%d" % (seed, i), "opts": opts,
               "steps": 1500 if i % 60 == 0 else (120 if i % 4 else 30), "again": i % 5 == 0}
    yield {"kind": "edge"}


EDGE = {  # an update of a wildcard position next to an open edge lands on another site
    "cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [[0.0, 0.0, 0.0]],
    "reps": [6, 6, 1], "periodic": [False, False, False], "ptypes": ["A", "B"], "mode": "bucket", "implicit": True,
    "calc": None, "types": [[[1, "A"]] if i == 0 else [] for i in range(36)], "rng": "MT", "seed": 1,
    "procs": [{"coords": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], "match": [[[1, "A"]], [[1, "*"]]],
               "update": [[[-1, "A"]], [[1, "A"]]], "bsites": [0], "rate": 1.0}]}


def totals(content, bucket):
    t = collections.Counter()
    for c in content:
        if bucket:
            t.update(c)
        else:
            t[c] += 1
    return +t


def diff(a, b):
    return [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y][:4]


def monitor(ctx, w):
    pt = w.conf.possibleTypes()
    reported = w.conf.particlesPerType()
    got = {t: int(reported[i]) for t, i in pt.items() if t != "*" and int(reported[i]) != 0}
    want = dict(totals(w.content, w.bucket))
    ctx.expect(got == want, "particle counts %s are reported for a configuration with %s" % (got, want), step=w.step)
    ctx.expect(len(w.content) == w.ref.lat.n, "the configuration has %d sites instead of %d" % (len(w.content), w.ref.lat.n))
    if w.bucket and any(n < 0 for c in w.content for n in c.values()):
        ctx.violation("negative occupation at step %s" % w.step)
    if w.first:
        return
    before, act = w.prev[2], w.prev[3]
    ctx.count("steps")
    if not 0 <= w.pn < len(w.ref.procs):
        ctx.violation("process %s is reported as the latest event" % w.pn)
        return
    p = w.ref.procs[w.pn]
    if w.site not in act[w.pn]:
        ctx.violation("step %s performed process %d at site %d, which was not available" % (w.step, w.pn, w.site),
                      spec=w.spec, before=before)
        return
    new = w.ref.apply(p, w.site, before)
    if new == w.content:
        ctx.count("exact")
        ctx.seen("ev", hash(str(w.spec["procs"][w.pn])), w.site)
        ctx.count("changed_sites", sum(x != y for x, y in zip(before, new)))
        return
    if w.ref.cut(p, w.site) and w.ref.apply_as_is(p, w.site, before) == w.content:
        ctx.known_finding("open-edge-update", "")
        ctx.count("known_edge_updates")
        return
    ctx.violation("step %s: process %d at site %d: sites (number, expected, found) %s" % (
        w.step, w.pn, w.site, diff(new, w.content)), spec=w.spec, before=before, after=w.content)


def run_case(ctx, case):
    spec = EDGE if case["kind"] == "edge" else trace.spec_for(case)
    model = trace.build(spec)
    w = trace.Walk(spec, model)
    w.monitors.append(lambda w: monitor(ctx, w))
    r = w.run(case.get("steps", 3))
    if r is None and case.get("again"):
        before = w.content
        w.monitors.insert(0, lambda w: w.first and ctx.expect(
            w.content == before, "the second run does not start from the final state of the first"))
        w.run(20, seed=spec["seed"] // 3 + 7)
        ctx.count("second_runs")
    ctx.count("mode_" + spec["mode"])
    ctx.sample({"spec": spec, "steps": w.total})
