"""C08: equal seeds give equal simulations, whatever is observed along the way."""
import hashlib
import json
import os
import random
import subprocess
import sys

import KMCLib
from KMCLib import KMCBreakerPlugin
from KMCLib.Backend import Backend
from kmcv import drive, rngref, trace
from kmcv.worker import Skip

QUICK, THOROUGH = 330, 4000
NO_SANITIZER = ("process",)


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {}
        if i % 3 == 1:
            opts["calc"] = True
        if i % 5 == 2:
            opts["mode"] = "bucket"
        yield {"kind": "pair", "seed": "%d-c08-%d" % (seed, i), "opts": opts, "steps": 40 if i % 8 else 300}
    for i in range(n // 4):
        yield {"kind": "rng", "seed": "%d-c08r-%d" % (seed, i)}
    for i in range(n // 12):
        opts = {"calc": True} if i % 3 == 1 else {}
        yield {"kind": "process", "seed": "%d-c08p-%d" % (seed, i), "opts": opts, "steps": 60}


class Never(KMCBreakerPlugin):
    def __init__(self, n):
        self.n, self.calls = n, 0

    def interval(self):
        return self.n

    def evaluate(self, step, time, configuration):
        self.calls += 1
        return False


def history(spec, steps, seed=None, extra=None, queries=None, **kw):
    """[(step, time, process, site)] and contents, as seen by an observer after every step."""
    model = trace.build(spec)
    hist = []

    def look(step, time, conf):
        hist.append((step, time, int(conf.latestEventProcess()) if hist else None,
                     int(conf.latestEventSite()) if hist else None, conf.types()))
        if queries is not None:
            queries(model, conf)
    an = extra(spec) if extra else None
    if an:
        kw["analysis"] = an
    if seed is not None:
        kw["seed"] = seed
    r = drive.run(model, spec, steps, look, **kw)
    return model, hist, r


def ask(rng):
    """Queries a user might make while the simulation runs."""
    def q(model, conf):
        for _ in range(rng.randint(0, 3)):
            k = rng.randrange(12)
            if k == 0:
                conf.atomIDTypes()
            elif k == 1:
                conf.atomIDCoordinates()
            elif k == 2:
                conf.particlesPerType()
            elif k == 3:
                conf.movedAtomIDs()
            elif k == 4:
                conf.sites(), conf.cellRepetitions(), conf.possibleTypes()
            elif k == 5:
                drive.sites_of(model)
            elif k == 6:
                i = model._backend().interactions()
                i.totalRate(), i.totalAvailableSites(), i.probabilityTable()
            elif k == 7:
                conf.lattice()._map().neighbourIndices(0, 1)
            elif k == 8:
                conf._backend().configMatchList(rng.randrange(len(conf.sites())))
            elif k == 9:
                conf._backend().recentMoveVectors(), conf._backend().atomID()
            elif k == 10:
                t = conf.types()
                t[0] = "nonsense"
            else:
                conf.latestEventProcess(), conf.latestEventSite()
    return q


def analyses(rng):
    def make(spec):
        out = []
        if rng.random() < 0.7:
            out.append(KMCLib.TimeStepDistribution(binsize=rng.choice([0.1, 1.0])))
        if rng.random() < 0.7:
            out.append(KMCLib.ProcessStatistics(processes=list(range(len(spec["procs"]))), time_interval=rng.choice([0.5, 2.0]),
                                                spatially_resolved=rng.random() < 0.5))
        if rng.random() < 0.7:
            out.append(KMCLib.Composition(time_interval=rng.choice([0.5, 3.0])))
        if spec["mode"] == "plain" and rng.random() < 0.7:
            out.append(KMCLib.OnTheFlyMSD(history_steps=3, n_bins=10, t_max=5.0, track_type=spec["ptypes"][0]))
        return out
    return make


def same(ctx, what, a, b, every=1):
    """b must be a (sub)history of a."""
    want = {h[0]: h for h in a}
    for n, h in enumerate(b):
        w = want.get(h[0])
        if w is None or w[1] != h[1] or w[4] != h[4] or (n and w[2:4] != h[2:4]):
            ctx.violation("%s: at step %s time %r, event %s instead of time %r, event %s%s" % (
                what, h[0], h[1], h[2:4], w and w[1], w and w[2:4], "; the configurations differ" if w and w[4] != h[4] else ""))
            return False
    if every == 1 and len(a) != len(b):
        ctx.violation("%s: %d steps instead of %d" % (what, len(b), len(a)))
        return False
    ctx.count("histories_compared")
    ctx.count("steps_compared", len(b))
    return True


def pair(ctx, case):
    spec = trace.spec_for(case)
    rng = random.Random("obs-" + case["seed"])
    steps = case["steps"]
    model, base, end = history(spec, steps)
    if not base:
        raise Skip()
    ctx.seen(hash(str([h[:4] for h in base])))
    ctx.sample({"seed": spec["seed"], "rng": spec["rng"], "history": [list(h[:4]) for h in base[:4]], "steps": len(base)})
    if steps > 100 or rng.random() < 0.5:
        _, h, e = history(spec, steps)
        same(ctx, "the same run again", base, h)
        ctx.expect(e == end, "the same run again ends differently")
    picks = rng.sample(range(7), 3)
    if 0 in picks:
        _, h, e = history(spec, steps, queries=ask(rng))
        same(ctx, "with queries after every step", base, h)
    if 1 in picks:
        kind = rng.choice(["lattice", "xyz"]) if spec["mode"] == "plain" else "lattice"
        kw = {"dump_interval": rng.choice([1, 3, 1000])} if rng.random() < 0.6 else {"dump_time_interval": 10.0 ** rng.uniform(-2, 1)}
        span = base[-1][1] - base[0][1]
        if "dump_time_interval" in kw:
            kw["dump_time_interval"] = max(kw["dump_time_interval"], span / 200.0) or 1.0
        _, h, e = history(spec, steps, trajectory_filename=os.path.join(ctx.scratch, "t"), trajectory_type=kind, **kw)
        same(ctx, "writing a trajectory (%s, %s)" % (kind, kw), base, h)
        ctx.count("with_trajectory")
    if 2 in picks:
        b = [Never(1), Never(rng.randint(1, 5))]
        _, h, e = history(spec, steps, breakers=b)
        same(ctx, "with breakers that never break", base, h)
        ctx.expect(len(h) < 2 or b[0].calls >= len(h) - 2, "a breaker was not asked")
    if 3 in picks:
        _, h, e = history(spec, steps, extra=analyses(rng))
        same(ctx, "with on-the-fly analyses", base, h)
        ctx.count("with_analyses")
    if 4 in picks:
        k = rng.randint(2, 6)
        _, h, e = history(spec, steps, analysis_interval=k)
        same(ctx, "observed every %d steps" % k, base, h, every=k)
    if 5 in picks:
        # not observed at all
        m = trace.build(spec)
        e = drive.run(m, spec, steps)
        model2_types = trace_types(m)
        ctx.expect(e == end and model2_types == base[-1][4], "not observed at all, the run ends in another configuration")
        ctx.count("unobserved")
    if 6 in picks:
        # a run split by the number of steps asked for
        k = max(1, (len(base) - 1) // 2)
        _, h, e = history(spec, k)
        same(ctx, "stopped after %d steps" % k, base[:len(h)], h)
        ctx.expect(len(h) == min(k, len(base) - 1) + 1, "%d steps were asked for, %d done" % (k, len(h) - 1))
    if len(base) > 3:
        _, h, e = history(spec, min(steps, 10), seed=spec["seed"] + 1 + rng.randrange(1000))
        ctx.expect([x[1] for x in h[1:4]] != [x[1] for x in base[1:4]], "another seed gives the same times")
        ctx.count("other_seeds")


def trace_types(model):
    el = model._backend().configuration().elements()
    if all(len(e) == 1 for e in el):
        plain = [e[0] for e in el]
    else:
        plain = None
    return _Types(plain, [[x for x in e] for e in el])


class _Types(object):
    """Compares equal to either form in which types are reported."""

    def __init__(self, plain, full):
        self.plain, self.full = plain, full

    def __eq__(self, other):
        return other == self.plain or other == self.full


KINDS = ["MT", "MINSTD", "RANLUX24", "RANLUX48"]


def rng_case(ctx, case):
    """The numbers of each generator, alone and with other generators in use in between."""
    r = random.Random(case["seed"])
    kind = r.choice(KINDS)
    s = r.choice([1, 2, 2 ** 31 - 2, 5489, 12345]) if r.random() < 0.2 else r.randrange(1, 2 ** 31 - 1)
    n = r.choice([10, 300, 4000])
    want = rngref.draws(kind, s, n)
    code = KMCLib.KMCControlParameters(rng_type=kind).rngType()
    if r.random() < 0.5:
        # other generators, other states: seeding starts afresh
        o = r.choice(KINDS)
        Backend.setRngType(KMCLib.KMCControlParameters(rng_type=o).rngType())
        Backend.seedRandom(False, 77)
        for _ in range(r.randrange(30)):
            Backend.randomDouble01()
    ctx.expect(Backend.setRngType(code), "generator %s is refused" % kind)
    Backend.seedRandom(False, s)
    got = [Backend.randomDouble01() for _ in range(n)]
    # the generators deliver integers; scaling them may differ in rounding
    bad = [i for i in range(n) if abs(got[i] - want[i]) > 1e-14 * max(want[i], 1e-3)]
    ctx.expect(not bad, "draw %s of %s with seed %d is %r instead of %r" % (
        bad and bad[0], kind, s, bad and got[bad[0]], bad and want[bad[0]]))
    ctx.expect(all(0.0 <= x < 1.0 for x in got), "a number of %s is not in [0,1)" % kind)
    ctx.count("draws_compared", n)
    ctx.count("generator_" + kind)
    ctx.seen(kind, s)


CHILD = """
import sys, json, hashlib
from kmcv import drive
case = json.load(open(sys.argv[1]))
from kmcv.checks import c08
from kmcv import trace
spec = trace.spec_for(case)
model, hist, end = c08.history(spec, case["steps"])
sys.stderr.write("HISTORY " + hashlib.sha256(json.dumps([h for h in hist]).encode()).hexdigest() + "\\n")
"""


def process(ctx, case):
    """The same run in other processes with other hash seeds (and other addresses)."""
    spec = trace.spec_for(case)
    model, hist, end = history(spec, case["steps"])
    want = hashlib.sha256(json.dumps([h for h in hist]).encode()).hexdigest()
    path = os.path.join(ctx.scratch, "case.json")
    json.dump(case, open(path, "w"))
    for hs in ("1", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-c", CHILD, path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        got = [l.split()[1] for l in p.stderr.decode(errors="replace").splitlines() if l.startswith("HISTORY ")]
        if p.returncode or len(got) != 1:
            ctx.violation("the same run in another process fails: %s" % p.stderr.decode(errors="replace")[-800:])
            return
        ctx.expect(got[0] == want, "the same run in another process (hash seed %s) gives another history" % hs)
        ctx.count("other_processes")


def run_case(ctx, case):
    {"pair": pair, "rng": rng_case, "process": process}[case["kind"]](ctx, case)
