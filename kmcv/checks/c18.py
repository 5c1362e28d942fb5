"""C18: multi-occupancy models hold exact occupations.

 - forms: occupations, requirements and updates are written in every accepted form ("A", (n, "A"), lists with repeated
   entries, in any order); the reported contents, availability and effects follow plain dictionaries of counts kept here;
 - walk: large and empty occupations, many types at a site, requirements that leave types open, types which appear
   where they were not before; occupations never become negative;
 - drain: particles are consumed until the run reports that nothing is left, which must be when and only when no process
   is available;
 - mirror: a plain model and its description with one particle at every site, run with the same seed.
"""
import copy
import random

import KMCLib

from kmcv import calc, drive, gen, geom, trace
from kmcv.worker import Skip

QUICK = {"walk": 500, "drain": 250, "mirror": 350}
THOROUGH = {"walk": 8000, "drain": 4000, "mirror": 6000}


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for kind in sorted(n):
        for i in range(n[kind]):
            yield {"kind": kind, "seed": "%d-c18-%s-%d" % (seed, kind, i), "steps": 400 if i % 20 == 0 else 60,
                   "calc": i % 5 == 2, "big": i % 4 == 1, "open": i % 6 == 3}


# -- models --------------------------------------------------------------------------------------
def bucket_model(rng, case):
    """Counts as dictionaries: spec["occ"] per site, process["need"] (None: anything goes), process["delta"]."""
    drain = case["kind"] == "drain"
    bs = rng.choice(gen.BASES)
    use_calc = bool(case["calc"])
    basis, reps, per = gen._lattice(rng, 1 if len(bs) > 1 or not use_calc else 2, False, 90, bs, 3 if use_calc else 0)
    lat = geom.Lattice({"basis": basis, "reps": reps, "periodic": per})
    types = list(rng.choice([["A"], ["A", "B"], ["B", "A", "V"], ["Na+", "e-", "a", "A"], ["t%d" % i for i in range(9)]]))
    if len(types) < 2 and not drain:
        types.append("Z")
    rng.shuffle(types)
    top = 40 if case["big"] else 4
    occ = []
    for _ in range(lat.n):
        d = {}
        for t in types:
            n = rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, top)])
            if n:
                d[t] = n
        occ.append(d)
    if rng.random() < 0.2:
        occ = [{} if rng.random() < 0.8 else d for d in occ]
    if not any(occ):
        occ[0] = {types[0]: 3}
    procs = []
    while len(procs) < rng.randint(1, 6):
        b = rng.randrange(lat.nb)
        nbs = [n for n in gen.neighbours(lat, b, 1, per) if n[0] <= 1.0 + 1e-9] if use_calc else gen.neighbours(lat, b, 1, per)
        near = gen._pick_near(rng, nbs, rng.choice([0, 1, 1, 2]))
        rels = [(0.0, 0.0, 0.0)] + [x[1] for x in near]
        need, delta = [], []
        for e in range(len(rels)):
            if rng.random() < (0.15 if e == 0 else 0.3):
                need.append(None)
            else:
                need.append({t: rng.choice([1, 1, 1, 2, 3, rng.randint(1, max(1, top // 2))]) for t in rng.sample(types, rng.choice([1, 1, min(2, len(types))]))})
            d = {}
            if need[-1] is not None:
                for t, n in need[-1].items():
                    if rng.random() < 0.6:
                        d[t] = -rng.choice([n, n, 1, rng.randint(1, n)])
            if not drain and rng.random() < 0.7:
                t = rng.choice(types)
                if t not in d:
                    d[t] = rng.choice([1, 1, 2, 5])
            delta.append(d)
        if drain and not any(n < 0 for d in delta for n in d.values()):
            continue
        if not any(delta):
            continue
        order = [0] + rng.sample(range(1, len(rels)), len(rels) - 1)
        procs.append({"coords": gen._coords(rng, lat, b, [rels[o] for o in order]), "need": [need[o] for o in order],
                      "delta": [delta[o] for o in order], "bsites": [b] if len(rels) > 1 or rng.random() < 0.5 else
                      sorted(set([b] + [x for x in range(lat.nb) if rng.random() < 0.5])), "rate": gen._rate(rng, rng.choice(["flat", "mid", "wide"]))})
    spec = {"cell": rng.choice(gen.CELLS), "basis": basis, "reps": reps, "periodic": per, "ptypes": list(types), "mode": "bucket",
            "implicit": True, "occ": occ, "procs": procs, "calc": None, "rng": rng.choice(["MT", "MT", "RANLUX24"]),
            "seed": rng.randrange(1, 2 ** 31 - 1)}
    if use_calc:
        spec["calc"] = {"cutoff": 1.0, "cache": rng.random() < 0.5, "exclude": [], "func": rng.choice(["hash", "after"]), "salt": rng.randrange(1 << 20)}
    return spec


def spell(rng, counts, forms=True):
    """Some accepted way of writing a dictionary of counts down."""
    items = sorted(counts.items())
    rng.shuffle(items)
    w = rng.random()
    if len(items) == 1 and w < 0.5:
        t, n = items[0]
        if n == 1 and rng.random() < 0.7:
            return t
        return (n, t)
    out = []
    for t, n in items:
        r = rng.random()
        if n > 0 and n < 6 and r < 0.3:
            out += [t] * n
        elif n > 1 and r < 0.5:
            k = rng.randint(1, n - 1)
            out += [(k, t), (n - k, t)]
        elif n < -1 and r < 0.5:
            k = rng.randint(1, -n - 1)
            out += [(-k, t), (n + k, t)]
        elif r < 0.6:
            out += [(n, t), (0, t)]
        else:
            out.append((n, t))
    rng.shuffle(out)
    return out


def realize(spec, rng):
    uc = KMCLib.KMCUnitCell(cell_vectors=spec["cell"], basis_points=spec["basis"])
    lattice = KMCLib.KMCLattice(unit_cell=uc, repetitions=tuple(spec["reps"]), periodic=tuple(spec["periodic"]))
    types = [spell(rng, d) if d else [] for d in spec["occ"]]
    if all(isinstance(t, str) for t in types) or all(isinstance(t, tuple) for t in types):
        # would be read as another format
        types[0] = [types[0]]
    conf = KMCLib.KMCConfiguration(lattice=lattice, types=types, possible_types=list(spec["ptypes"]))
    procs = []
    for p in spec["procs"]:
        match = []
        for d in p["need"]:
            if d is None:
                match.append(rng.choice(["*", (1, "*"), [(1, "*")], ["*"]]))
            else:
                m = spell(rng, d)
                match.append(m)
        update = [spell(rng, d) if d else [] for d in p["delta"]]
        procs.append(KMCLib.KMCBucketProcess(coordinates=p["coords"], minimum_match=match, update=update,
                                             basis_sites=list(p["bsites"]), rate_constant=p["rate"]))
    inter = KMCLib.KMCInteractions(processes=procs, implicit_wildcards=spec["implicit"])
    if spec["calc"]:
        inter.setRateCalculator(calc.make(spec["calc"]))
    return KMCLib.KMCLatticeModel(configuration=conf, interactions=inter)


class Counts(object):
    """The documented meaning, with dictionaries."""

    def __init__(self, spec):
        self.spec = spec
        lat = self.lat = geom.Lattice(spec)
        self.at = []
        for p in spec["procs"]:
            c0 = p["coords"][0]
            rels = [tuple(c[d] - c0[d] for d in range(3)) for c in p["coords"]]
            here = {}
            for s in range(lat.n):
                i, j, k, b = lat.cell(s)
                if b in p["bsites"]:
                    o = [lat.locate(b, r) for r in rels]
                    here[s] = [lat.index(i + x[0], j + x[1], k + x[2], x[3]) for x in o]
            self.at.append(here)

    def available(self, occ):
        out = []
        for p, here in zip(self.spec["procs"], self.at):
            out.append([s for s, sites in here.items()
                        if all(need is None or all(occ[t].get(ty, 0) >= n for ty, n in need.items())
                               for need, t in zip(p["need"], sites))])
        return out

    def perform(self, occ, p, s):
        new = [dict(d) for d in occ]
        for delta, t in zip(self.spec["procs"][p]["delta"], self.at[p][s]):
            for ty, n in delta.items():
                new[t][ty] = new[t].get(ty, 0) + n
        return [dict((t, n) for t, n in d.items() if n) for d in new]


def run_counts(ctx, case):
    rng = random.Random("c18-%s" % case["seed"])
    spec = bucket_model(rng, case)
    ref = Counts(spec)
    model = realize(spec, rng)
    state = {"occ": None, "act": None, "stop": False}
    drain = case["kind"] == "drain"

    def look(step, time, conf):
        if state["stop"]:
            return
        occ = drive.contents(conf, True)
        want = spec["occ"] if state["occ"] is None else state["next"](conf)
        ctx.count("sites_compared", len(occ))
        if not ctx.expect(occ == want, "the occupations after step %s are not what the events give" % step,
                          bad=[(s, x, y) for s, (x, y) in enumerate(zip(want, occ)) if x != y][:5], spec=spec):
            state["stop"] = True
            return
        # what the backend counts with
        names = [t for t in conf._backendTypeNames()] if hasattr(conf, "_backendTypeNames") else None
        act = [sorted(x) for x in drive.sites_of(model)]
        good = [sorted(x) for x in ref.available(occ)]
        ctx.count("states")
        ctx.count("available_pairs", sum(len(x) for x in good))
        if not ctx.expect(act == good, "step %s: the available sites do not follow from the occupations" % step,
                          bad=[(p, sorted(set(x) ^ set(y))[:8]) for p, (x, y) in enumerate(zip(good, act)) if x != y], occ=occ, spec=spec):
            state["stop"] = True
            return
        total = {}
        for d in occ:
            for t, n in d.items():
                total[t] = total.get(t, 0) + n
        pt = conf.possibleTypes()
        rep = conf.particlesPerType()
        got = dict((t, int(rep[i])) for t, i in pt.items() if t != "*" and int(rep[i]))
        ctx.expect(got == total, "step %s: %s particles are reported, %s are there" % (step, got, total))
        ctx.seen("occ", hash(str(occ)))
        empties = sum(1 for d in occ if not d)
        ctx.count("empty_sites", empties)
        ctx.count("above_ten", sum(1 for d in occ if any(n > 10 for n in d.values())))
        state["occ"], state["act"] = occ, act

        def nxt(conf, occ=occ, act=act):
            p, s = int(conf.latestEventProcess()), int(conf.latestEventSite())
            if s not in act[p]:
                ctx.violation("process %d was performed at site %d, where it was not available" % (p, s), spec=spec, occ=occ)
                return occ
            ctx.count("events")
            return ref.perform(occ, p, s)
        state["next"] = nxt

    r = drive.run(model, spec, 3000 if drain else case["steps"], look)
    if r == "dead":
        if state["occ"] is None:
            # nothing was available from the start
            ctx.expect(not any(ref.available(spec["occ"])), "the run reports that nothing can happen, but something can", spec=spec)
            ctx.count("dead_at_start")
        else:
            ctx.expect(not any(state["act"]) or state["stop"], "the run ended although processes were available", spec=spec)
            ctx.count("drained")
    elif drain and not state["stop"]:
        ctx.count("not_drained")
    ctx.sample({"kind": case["kind"], "types": spec["ptypes"], "sites": ref.lat.n, "procs": spec["procs"][:1]})


# -- one particle per site -----------------------------------------------------------------------------
def mirror(spec):
    b = copy.deepcopy(spec)
    b["mode"] = "bucket"
    b["types"] = [[[1, t]] for t in spec["types"]]
    for p in b["procs"]:
        before, after = p.pop("before"), p.pop("after")
        p["moves"] = None
        p["match"] = [[[1, t]] for t in before]
        p["update"] = [[] if x == y else [[-1, x], [1, y]] for x, y in zip(before, after)]
    return b


def run_mirror(ctx, case):
    opts = {"mode": "plain"}
    if case["calc"]:
        opts["calc"] = True
    opts["open_ok"] = bool(case["open"])
    a = gen.model(random.Random("model-%s" % case["seed"]), **opts)
    for p in a["procs"]:
        # a site of any type that becomes another has no counterpart
        if any(x == "*" and y != "*" for x, y in zip(p["before"], p["after"])):
            raise Skip()
    if a["calc"]:
        a["calc"]["func"] = random.Random(case["seed"]).choice(["count", "after", "const"])
    b = mirror(a)
    logs = []
    for spec in (a, b):
        model = trace.build(spec)
        log = []

        def look(step, time, conf):
            c = drive.contents(conf, spec["mode"] == "bucket")
            if spec["mode"] == "bucket":
                c = [calc.content([(n, t) for t, n in d.items()]) for d in c]
            else:
                c = ["1" + t for t in c]
            log.append((step, time, c, drive.sites_of(model), int(conf.latestEventProcess()), int(conf.latestEventSite()),
                        float(model._backend().interactions().totalRate())))

        r = drive.run(model, spec, case["steps"], look)
        log.append(r)
        logs.append(log)
    x, y = logs
    if not ctx.expect(len(x) == len(y), "the plain run has %d steps and the multi-occupancy one %d" % (len(x), len(y)), spec=a):
        return
    ctx.count("mirror_runs")
    for n, (p, q) in enumerate(zip(x, y)):
        ctx.count("mirror_states")
        if p != q:
            bad = [i for i, (u, v) in enumerate(zip(p, q)) if u != v] if isinstance(p, tuple) and isinstance(q, tuple) else None
            ctx.violation("record %d of the plain run and of the same model with one particle per site differ (fields %s)" % (n, bad),
                          spec=a, plain=repr(p)[:1500], buckets=repr(q)[:1500])
            return
        if isinstance(p, tuple):
            ctx.seen("mirror", hash(str(p[2])))


def run_case(ctx, case):
    if case["kind"] == "mirror":
        run_mirror(ctx, case)
    else:
        run_counts(ctx, case)
