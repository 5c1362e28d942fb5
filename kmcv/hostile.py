"""Workloads that are legal but unkind: small lattices, odd callback results, short-lived objects, nested runs."""
import gc
import random

import KMCLib
from KMCLib.Exceptions.Error import Error

from kmcv import calc, drive, gen, trace

VALUES = [float("nan"), float("inf"), -float("inf"), -1.0, 1e308, 1e-320, 0.0, 3, True, 10 ** 400, "x", None, [1.0], -0.0, 5e-324]


def shrink(spec, rng, by=3):
    """The same processes on a lattice smaller than they reach."""
    reps = [rng.randint(1, max(1, min(r, by))) for r in spec["reps"]]
    n = len(spec["basis"]) * reps[0] * reps[1] * reps[2]
    spec["reps"] = reps
    spec["periodic"] = [rng.random() < 0.8 for _ in range(3)]
    spec["types"] = (spec["types"] * (n // len(spec["types"]) + 1))[:n]
    if spec["calc"]:
        spec["calc"]["cutoff"] = rng.choice([0.0, 0.3, 1.0, 2.5, 3.5, None])
    return spec


def attempt(fn):
    """Errors are as good as results here; only the process must survive."""
    try:
        with drive.quiet():
            return fn()
    except (Error, RuntimeError, TypeError, ValueError, ArithmeticError, IndexError, AttributeError, NotImplementedError) as e:
        return e


def look(model, rng):
    """An observer that asks for everything it may ask for."""
    def fn(step, time, conf):
        k = step % 5
        if k == 0:
            conf.types(), conf.atomIDTypes(), conf.atomIDCoordinates(), conf.particlesPerType()
        elif k == 1:
            conf.movedAtomIDs(), conf.latestEventProcess(), conf.latestEventSite()
        elif k == 2:
            drive.sites_of(model)
        elif k == 3:
            b = conf._backend()
            n = len(conf.types())
            s = rng.randrange(n)
            b.configMatchList(s)
            [x.match_type if hasattr(x, "match_type") else 0 for x in b.configMatchList(s)]
        else:
            m = conf.lattice()._map() if hasattr(conf.lattice(), "_map") else conf._latticeMap()
            n = len(conf.types())
            m.neighbourIndices(rng.randrange(n), rng.choice([0, 1, 2]))
            m.supersetNeighbourIndices([rng.randrange(n) for _ in range(rng.randint(1, 3))], rng.choice([1, 2]))
    return fn


def small(rng, case):
    spec = gen.model(rng, **case.get("opts", {}))
    spec = shrink(spec, rng)
    m = attempt(lambda: trace.build(spec))
    if isinstance(m, Exception):
        return "rejected"
    fn = look(m, rng)
    wide = spec["calc"] and (spec["calc"]["cutoff"] or 0) > 2
    r = attempt(lambda: drive.run(m, spec, min(case["steps"], 15) if wide else case["steps"], fn))
    return "ran" if not isinstance(r, Exception) else "error"


def callback(rng, case):
    """Rate calculators that hand back something else every now and then."""
    spec = gen.model(rng, calc=True)
    base = calc.make(spec["calc"])
    bad = rng.choice(VALUES)
    every = rng.choice([1, 3, 17, 90])
    n = [0]

    class Odd(base):
        def rate(self, *a):
            n[0] += 1
            if n[0] % every == 0:
                return bad
            return base.rate(self, *a)

        def cutoff(self):
            return case.get("cutoff", base.cutoff(self))
    r = attempt(lambda: drive.run(gen.realize(spec, Odd), spec, case["steps"], lambda s, t, c: None))
    return "error" if isinstance(r, Exception) else "ran"


def lifetime(rng, case):
    """Objects are released in any order while others that came from them are still used."""
    keep = []
    for _ in range(4):
        spec = gen.model(rng, calc=True if rng.random() < 0.4 else None)
        conf = gen.realize_config(spec)
        inter = gen.realize_interactions(spec, calc.make(spec["calc"]) if spec["calc"] else None)
        model = KMCLib.KMCLatticeModel(configuration=conf, interactions=inter)
        attempt(lambda: drive.run(model, spec, case["steps"], lambda s, t, c: None))
        drop = [("model", model), ("conf", conf), ("inter", inter)]
        got = []
        if rng.random() < 0.8:
            got.append(attempt(lambda: model._backend().interactions()))
            got.append(attempt(lambda: conf._backend()))
            got.append(attempt(lambda: conf._latticeMap()))
            got.append(attempt(lambda: conf.types()))
            got.append(attempt(lambda: conf.atomIDCoordinates()))
            got.append(attempt(lambda: conf._backend().configMatchList(0)))
            got.append(attempt(lambda: conf._backend().recentMoveVectors()))
            got.append(attempt(lambda: inter._backend(conf.possibleTypes(), 1, conf) if False else None))
        rng.shuffle(drop)
        keep.append(drop[:rng.randint(0, 2)])
        del model, conf, inter, drop
        gc.collect()
        for g in got:
            if g is None or isinstance(g, Exception):
                continue
            attempt(lambda: repr(list(g) if hasattr(g, "__len__") else g))
        for left in keep:
            for name, o in left:
                if name == "model":
                    attempt(lambda: drive.run(o, spec, 5, lambda s, t, c: None))
                elif name == "conf":
                    attempt(lambda: (o.types(), o.atomIDTypes(), o.particlesPerType(), o.movedAtomIDs()))
                else:
                    attempt(lambda: KMCLib.KMCLatticeModel(configuration=gen.realize_config(spec), interactions=o)._backend())
    return "ran"


def nested(rng, case):
    """A run inside the callbacks of another run."""
    specs = [gen.model(rng, calc=True if rng.random() < 0.5 else None) for _ in range(2)]
    a, b = [trace.build(s) for s in specs]

    def inner(step, time, conf):
        if step % 5 == 1:
            attempt(lambda: drive.run(b, specs[1], 4, lambda s, t, c: None))
            conf.types()
    r = attempt(lambda: drive.run(a, specs[0], case["steps"], inner))
    return "error" if isinstance(r, Exception) else "ran"


def reenter(rng, case):
    """A rate calculator that queries the configuration while rates are evaluated."""
    spec = gen.model(rng, calc=True)
    base = calc.make(spec["calc"])
    n = [0]

    class Asking(base):
        def rate(self, *a):
            n[0] += 1
            if n[0] % 20 == 1:
                self.configuration.types()
                self.configuration.atomIDTypes()
                self.configuration.particlesPerType()
            return base.rate(self, *a)
    r = attempt(lambda: drive.run(gen.realize(spec, Asking), spec, case["steps"], lambda s, t, c: None))
    return "error" if isinstance(r, Exception) else "ran"


def analyses(rng, case):
    """Bins and histories of extreme sizes."""
    spec = gen.model(rng, mode="plain", moves_only=True)
    an = [KMCLib.OnTheFlyMSD(history_steps=rng.choice([1, 2, 50]), n_bins=rng.choice([1, 7, 400]),
                             t_max=rng.choice([1e-300, 1e-30, 1e-12, 1.0, 1e12, 1e300]), track_type=rng.choice(spec["ptypes"])) for _ in range(3)]
    r = attempt(lambda: drive.run(trace.build(spec), spec, case["steps"], lambda s, t, c: None, analysis=an))
    for a in an:
        attempt(lambda: (a.results(), a.stdDev(), a.binCounters()))
    return "error" if isinstance(r, Exception) else "ran"


def extremes(rng, case):
    """Fixed rates at the ends of what a double can hold, empty and crowded sites."""
    spec = gen.model(rng, zero_rates=rng.random() < 0.5)
    for p in spec["procs"]:
        if rng.random() < 0.5:
            p["rate"] = rng.choice([5e-324, 1e-308, 1e-300, 1e300, 1.7e308, 1e16, 1.0])
    if spec["mode"] == "bucket":
        spec["types"] = [[] if rng.random() < 0.6 else [[rng.choice([1, 30, 100000]), rng.choice(spec["ptypes"])]] for _ in spec["types"]]
    r = attempt(lambda: drive.run(trace.build(spec), spec, case["steps"], lambda s, t, c: None))
    return "error" if isinstance(r, Exception) else "ran"


def scripts(rng, case):
    """Objects from scripts, copies and repeated set-up."""
    spec = gen.model(rng, mode="plain")
    m = trace.build(spec)
    attempt(lambda: drive.run(m, spec, case["steps"], lambda s, t, c: None))
    env = {}
    attempt(lambda: exec("from KMCLib import *\n" + m._script(), env))
    if "model" in env:
        for _ in range(2):
            attempt(lambda: drive.run(env["model"], spec, 5, lambda s, t, c: None))
    return "ran"


KINDS = {"small": small, "callback": callback, "lifetime": lifetime, "nested": nested, "reenter": reenter, "analyses": analyses,
         "extremes": extremes, "scripts": scripts}


def play(case):
    return KINDS[case["kind"]](random.Random("hostile-" + case["seed"]), case)


def cases(prefix, n):
    names = ["small", "callback", "small", "lifetime", "nested", "reenter", "analyses", "extremes", "small", "scripts", "extremes", "callback"]
    for i in range(n):
        c = {"kind": names[i % len(names)], "seed": "%s-%d" % (prefix, i), "steps": 50 if i % 5 else 300}
        if c["kind"] == "small":
            c["opts"] = [{}, {"calc": True}, {"mode": "bucket"}, {"implicit": False}, {"calc": True, "mode": "bucket"}, {"shells": 2}][(i // 2) % 6]
        yield c


def main():
    """Run as a program (under valgrind): python -m kmcv.hostile PREFIX N"""
    import sys
    n = 0
    for c in cases(sys.argv[1], int(sys.argv[2])):
        c["steps"] = min(c["steps"], 25)
        play(c)
        n += 1
        sys.stderr.write("PLAYED %d %s\n" % (n, c["seed"]))
        sys.stderr.flush()


if __name__ == "__main__":
    main()
