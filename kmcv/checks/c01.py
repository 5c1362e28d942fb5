"""C01: the available events always equal a fresh match of the configuration."""
import random

from kmcv import geom, trace

QUICK, THOROUGH = 900, 12000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {}
        if i % 3 == 0:
            opts["open_ok"] = False
        if i % 5 == 1:
            opts["calc"] = "plus" if i % 15 == 1 else True
        if i % 7 == 2:
            opts["mode"] = "bucket"
        if i % 11 == 3:
            opts["implicit"] = False
        if i % 13 == 4:
            opts["shells"] = 2
        yield {"kind": "walk", "seed": "%d-c01-%d" % (seed, i), "opts": opts,
               "steps": 400 if i % 40 == 0 else (60 if i % 4 else 25), "again": i % 6 == 0}
    yield {"kind": "edge"}
    for i in range(n // 30):
        yield {"kind": "large", "seed": "%d-c01L-%d" % (seed, i)}
    for i in range(max(5, n // 400)):
        yield {"kind": "huge", "seed": "%d-c01H-%d" % (seed, i)}


EDGE = {  # a dimer at the open end of a chain is not seen, the same dimer inside is
    "cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [[0.0, 0.0, 0.0]],
    "reps": [6, 1, 1], "periodic": [False, False, False], "ptypes": ["A", "B"], "mode": "plain", "implicit": True,
    "calc": None, "types": ["A"] * 6, "rng": "MT", "seed": 1,
    "procs": [{"coords": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], "before": ["A", "A"], "after": ["B", "B"],
               "moves": None, "bsites": [0], "rate": 1.0}]}


def compare(ctx, w):
    ref = w.ref
    ideal = ref.enabled(w.content)
    if len(w.act) != len(ideal):
        ctx.violation("%d processes are reported for a model with %d" % (len(w.act), len(ideal)))
        return
    for p, a, i in zip(ref.procs, w.act, ideal):
        sa = set(a)
        ctx.count("pairs_available", len(a))
        if len(sa) != len(a):
            ctx.violation("site listed twice for process %d at step %s: %s" % (p.number, w.step, sorted(a)))
        for s in sorted(sa ^ set(i)):
            if not 0 <= s < ref.lat.n:
                ctx.violation("process %d is listed at site %s, which does not exist" % (p.number, s))
            elif ref.cut(p, s) and ref.as_is(p, s, w.content) == (s in sa):
                ctx.count("known_edge_pairs")
                ctx.known_finding("open-edge", "")
            else:
                ctx.violation("process %d at site %d is %s but %s at step %s" % (
                    p.number, s, "listed as available" if s in sa else "not listed",
                    "it does not match" if s in sa else "it matches", w.step),
                    spec=w.spec, content=w.content)
                return
    total = int(w.model._backend().interactions().totalAvailableSites())
    if total != sum(len(a) for a in w.act):
        ctx.violation("the number of available events is reported as %d but %d are listed" % (total, sum(len(a) for a in w.act)))
    ctx.count("states")
    ctx.count("pairs_checked", len(ref.procs) * ref.lat.n)


def run_case(ctx, case):
    if case["kind"] == "edge":
        spec = EDGE
    elif case["kind"] == "large":
        rng = random.Random(case["seed"])
        from kmcv import gen
        spec = gen.model(rng, max_sites=900, open_ok=False, n_procs=5)
        n = rng.choice([7, 9, 12])
        spec["reps"] = [r * 2 if r > 1 else r for r in spec["reps"]]
        lat = geom.Lattice(spec)
        if lat.n > 2500:
            spec["reps"] = [r // 2 if r > 1 else r for r in spec["reps"]]
            lat = geom.Lattice(spec)
        base = spec["types"]
        spec["types"] = [base[rng.randrange(len(base))] for _ in range(lat.n)]
    elif case["kind"] == "huge":
        return huge(ctx, case)
    else:
        spec = trace.spec_for(case)
    model = trace.build(spec)
    w = trace.Walk(spec, model)
    calls = [0]

    def mon(w):
        compare(ctx, w)
        if not w.first:
            ctx.seen("event", hash(str(spec["procs"][w.pn]["coords"])), w.site, spec["mode"])
        calls[0] += 1
        if calls[0] % 17 == 3:
            f = trace.fresh_sites(spec, w.content)
            ctx.count("fresh_models")
            if [sorted(x) for x in f] != [sorted(x) for x in w.act]:
                bad = [(i, sorted(set(x) ^ set(y))[:5]) for i, (x, y) in enumerate(zip(f, w.act)) if sorted(x) != sorted(y)]
                ctx.violation("a model built anew from the state of step %s has other available events (process, sites): %s"
                              % (w.step, bad[:3]), spec=spec, content=w.content)

    w.monitors.append(mon)
    steps = case.get("steps", 20 if case["kind"] == "large" else 5)
    r = w.run(steps)
    if r is None and case.get("again"):
        ctx.count("second_runs")
        w.run(15, seed=spec["seed"] // 2 + 1)
    ctx.count("steps", w.total)
    ctx.count("mode_" + spec["mode"])
    ctx.count("implicit" if spec["implicit"] else "explicit")
    ctx.count("dead_ends", r == "dead")
    ctx.sample({"spec": spec, "steps": w.total, "available_at_end": w.act})


def huge(ctx, case):
    """More sites than a short integer counts; only the surroundings of the events are matched anew after the first state."""
    rng = random.Random(case["seed"])
    shape = rng.choice([(70000, 1, 1), (1, 70000, 1), (1, 1, 70000), (41, 41, 41), (300, 240, 1), (1, 270, 260)])
    hop = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
    axis = rng.choice([d for d in range(3) if shape[d] > 1])
    hop[1][axis] = rng.choice([1.0, -1.0])
    n = shape[0] * shape[1] * shape[2]
    spec = {"cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [[0.0, 0.0, 0.0]], "reps": list(shape),
            "periodic": [x > 1 for x in shape], "ptypes": ["A", "B", "V"], "mode": "plain", "implicit": True, "calc": None,
            "types": [rng.choice("AABV") for _ in range(n)], "rng": "MT", "seed": rng.randrange(1, 1 << 30),
            "procs": [{"coords": hop, "before": ["A", "V"], "after": ["V", "A"], "moves": None, "bsites": [0], "rate": 1.0},
                      {"coords": [[0.0, 0.0, 0.0]], "before": ["B"], "after": ["A"], "moves": None, "bsites": [0], "rate": 0.5}]}
    step_of = {0: shape[1] * shape[2], 1: shape[2], 2: 1}[axis]

    def target(s):
        c = (s // step_of) % shape[axis]
        return s + ((c + int(hop[1][axis])) % shape[axis] - c) * step_of

    model = trace.build(spec)
    state = {"types": list(spec["types"])}

    def events(t):
        return [set(s for s in range(n) if t[s] == "A" and t[target(s)] == "V"), set(s for s in range(n) if t[s] == "B")]

    def look(step, time, conf):
        t = list(conf.types())
        if step:
            old, p, s = state["types"], int(conf.latestEventProcess()), int(conf.latestEventSite())
            ctx.expect(s in state["on"][p], "step %d: process %d is performed at site %d, where it was not available" % (step, p, s))
            new = list(old)
            if p == 0:
                new[s], new[target(s)] = "V", "A"
            else:
                new[s] = "A"
            ctx.expect(new == t, "step %d of a model with %d sites: process %d at site %d gives another configuration" % (step, n, p, s))
            ctx.count("steps")
        state["types"], state["on"] = t, events(t)
        got = [list(map(int, q.sites())) for q in model._backend().interactions().processes()]
        for p in (0, 1):
            ctx.count("pairs_available", len(got[p]))
            ctx.expect(len(got[p]) == len(state["on"][p]) and set(got[p]) == state["on"][p],
                       "step %d of a model with %d sites: process %d is available at %d sites instead of %d, e.g. %s" % (
                           step, n, p, len(got[p]), len(state["on"][p]), sorted(set(got[p]) ^ state["on"][p])[:4]))
        ctx.count("states")
        ctx.count("states_of_huge_models")

    from kmcv import drive
    drive.run(model, spec, 12, look)
