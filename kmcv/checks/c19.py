"""C19: models living in one process do not disturb each other.

Every case has a few models.  What each of them reports along its runs when it has the process to itself (for some
cases: a process of its own) is compared, record by record, with what it reports when
 - mixed: construction, runs, queries and destruction of the models are interleaved, other models are built, queried and
   dropped inside analyses and rate calculators, and everything that was handed over or returned is scribbled on;
 - shared: the models are built from the same lattice, process, interactions and calculator class objects;
and, when several models take turns on one configuration (handoff), what is available after every step is compared
with a model built anew.
"""
import copy
import gc
import io
import json
import os
import random
import re
import subprocess
import sys

import KMCLib
from KMCLib import KMCAnalysisPlugin

from kmcv import calc, drive, gen, geom, trace

QUICK = {"mixed": 260, "shared": 180, "handoff": 150}
THOROUGH = {"mixed": 4000, "shared": 3000, "handoff": 2500}


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for kind in sorted(n):
        for i in range(n[kind]):
            yield {"kind": kind, "seed": "%d-c19-%s-%d" % (seed, kind, i), "own_process": kind == "mixed" and i % 8 == 0}


# -- building, with the arguments kept ------------------------------------------------------------
class Kit(object):
    """Builds the objects of a spec and remembers every mutable argument."""

    def __init__(self, spec, shared=None):
        self.args = []
        self.spec = spec
        self.shared = shared if shared is not None else {}

    def keep(self, x):
        self.args.append(x)
        return x

    def lattice(self):
        if "lattice" in self.shared:
            return self.shared["lattice"]
        s = self.spec
        uc = KMCLib.KMCUnitCell(cell_vectors=self.keep([self.keep(list(map(float, v))) for v in s["cell"]]),
                                basis_points=self.keep([self.keep(list(map(float, b))) for b in s["basis"]]))
        return KMCLib.KMCLattice(unit_cell=uc, repetitions=tuple(s["reps"]), periodic=tuple(bool(x) for x in s["periodic"]))

    def config(self, lattice):
        s = self.spec
        types = list(s["types"]) if s["mode"] == "plain" else [self.keep([(n, t) for n, t in site]) for site in s["types"]]
        return KMCLib.KMCConfiguration(lattice=lattice, types=self.keep(types), possible_types=self.keep(list(s["ptypes"])))

    def process(self, p):
        k = self.keep
        coords = k([k(list(c)) for c in p["coords"]])
        if self.spec["mode"] == "bucket":
            return KMCLib.KMCBucketProcess(coordinates=coords, minimum_match=k([k([(n, t) for n, t in m]) for m in p["match"]]),
                                           update=k([k([(n, t) for n, t in u]) for u in p["update"]]),
                                           basis_sites=k(list(p["bsites"])), rate_constant=p["rate"])
        mv = None if p.get("moves") is None else k([(i, k([float(x) for x in v])) for i, v in p["moves"]])
        return KMCLib.KMCProcess(coordinates=coords, elements_before=k(list(p["before"])), elements_after=k(list(p["after"])),
                                 move_vectors=mv, basis_sites=k(list(p["bsites"])), rate_constant=p["rate"])

    def interactions(self, calculator):
        if "interactions" in self.shared:
            return self.shared["interactions"]
        procs = self.shared.get("processes") or [self.process(p) for p in self.spec["procs"]]
        inter = KMCLib.KMCInteractions(processes=self.keep(list(procs)), implicit_wildcards=self.spec["implicit"])
        if calculator is not None:
            inter.setRateCalculator(calculator)
        return inter

    def model(self, calculator=None):
        self.conf = self.config(self.lattice())
        self.inter = self.interactions(calculator)
        return KMCLib.KMCLatticeModel(configuration=self.conf, interactions=self.inter)

    def scribble(self, rng):
        """Change the arguments after they were used."""
        n = 0
        for a in self.args:
            w = rng.random()
            if w < 0.3:
                continue
            n += 1
            if w < 0.5:
                del a[:]
            elif w < 0.7 and a:
                rng.shuffle(a)
            elif w < 0.85 and a:
                a[rng.randrange(len(a))] = rng.choice([None, "junk", 7, [1.0, 2.0, 3.0], 0.125])
            else:
                a.append(rng.choice(["junk", 99, 0.5, ("x", 1)]))
        self.args = []
        return n


class Life(object):
    """One model with its runs; log holds what it reported."""

    def __init__(self, spec, segments, shared=None, meddle=None):
        self.spec, self.segments = spec, segments
        self.log = []
        self.calls = []
        self.meddle = meddle
        self.done = 0
        cls = None
        if spec["calc"]:
            base = (shared or {}).get("calculator") or calc.make(spec["calc"], self.calls)
            cls = base
            if meddle is not None:
                class Busy(base):
                    def rate(self, *a):
                        meddle("rate")
                        return base.rate(self, *a)
                cls = Busy
        self.kit = Kit(spec, shared)
        self.model = self.kit.model(cls)

    def look(self, step, time, conf):
        if self.meddle is not None:
            self.meddle("before")
        bucket = self.spec["mode"] == "bucket"
        back = conf._backend()
        inter = self.model._backend().interactions()
        rec = [step, time, drive.contents(conf, bucket), drive.sites_of(self.model), int(conf.latestEventProcess()),
               int(conf.latestEventSite()), [int(x) for x in back.atomID()], [[float(x) for x in c] for c in conf.atomIDCoordinates()],
               [str(x) for x in conf.atomIDTypes()], [int(x) for x in conf.movedAtomIDs()],
               [[c.x(), c.y(), c.z()] for c in back.recentMoveVectors()][:len(conf.movedAtomIDs())],
               [int(x) for x in conf.particlesPerType()], [float(p.totalRate()) for p in inter.processes()], float(inter.totalRate())]
        self.log.append(rec)
        if self.meddle is not None:
            self.meddle("after", self, conf)

    def segment(self):
        """The next run; False when all are done."""
        if self.done >= len(self.segments):
            return False
        g = self.segments[self.done]
        self.done += 1
        from KMCLib import Composition, OnTheFlyMSD, ProcessStatistics, TimeStepDistribution
        extra = []
        if g["analyses"]:
            extra = [Composition(time_interval=g["interval"]), ProcessStatistics(processes=list(range(len(self.spec["procs"]))), time_interval=g["interval"],
                                                                                 spatially_resolved=g["spatial"]),
                     TimeStepDistribution(binsize=g["interval"] / 7.0)]
            if self.spec["mode"] == "plain":
                extra.append(OnTheFlyMSD(history_steps=g["history"], n_bins=20, t_max=g["interval"] * 4, track_type=self.spec["types"][0]))
        kw = {}
        name = None
        if g["trajectory"]:
            name = "c19-%d.traj" % random.SystemRandom().randrange(1 << 60)
            kw = {"trajectory_filename": name, "trajectory_type": g["trajectory"]}
        spec = dict(self.spec, seed=g["seed"], rng=g["rng"])
        error = None
        try:
            r = drive.run(self.model, spec, g["steps"], self.look, analysis=extra, **kw)
        except KMCLib.Exceptions.Error.Error as e:
            r = error = str(e)
        self.log.append(["end", r])
        if r is None:
            for a in extra:
                out = io.StringIO()
                try:
                    a.printResults(out)
                    self.log.append([type(a).__name__, out.getvalue()])
                except Exception as e:
                    self.log.append([type(a).__name__, repr(e)])
        if name is not None and os.path.exists(name):
            self.log.append(["file", re.sub("creation_time=.*", "", open(name).read())])
            os.remove(name)
        self.log.append(["calls", len(self.calls), repr(self.calls[-3:])])
        del self.calls[:]
        return True


def alone(spec, segments):
    life = Life(spec, segments)
    while life.segment():
        pass
    return life.log


def plan(rng, spec):
    segs = []
    # how long steps of this model take
    t = [0.0, 1]
    try:
        drive.run(trace.build(spec), spec, 60, lambda step, time, conf: t.__setitem__(slice(None), [time, step]))
    except KMCLib.Exceptions.Error.Error:
        pass
    rates = [p["rate"] for p in spec["procs"] if p["rate"] > 0.0] or [1.0]
    # (the analyses keep a record for every interval of time)
    even = max(rates) <= 1e3 * min(rates)
    long = t[0] / max(t[1], 1) * 20 or 1.0
    for _ in range(rng.choice([1, 2, 2, 3])):
        segs.append({"steps": rng.choice([3, 8, 15, 25]), "seed": rng.randrange(1, 2 ** 31 - 1), "rng": rng.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"]),
                     "analyses": rng.random() < 0.7 and even, "interval": rng.choice([0.1, 1.0]) * long, "spatial": rng.random() < 0.5, "history": rng.choice([1, 3, 8]),
                     "trajectory": rng.choice([None, None, "lattice", "xyz"]) if spec["mode"] == "plain" else rng.choice([None, "lattice"])})
    return segs


def some_model(rng, **kw):
    opts = {"max_sites": 100}
    w = rng.random()
    if w < 0.35:
        opts["calc"] = True
    if rng.random() < 0.3:
        opts["mode"] = "bucket"
    if rng.random() < 0.2:
        opts["implicit"] = False
    opts.update(kw)
    return gen.model(rng, **opts)


def same(ctx, what, a, b, spec):
    n = min(len(a), len(b))
    for i in range(n):
        ctx.count("records_compared")
        x, y = a[i], b[i]
        if x != y:
            f = [k for k, (u, v) in enumerate(zip(x, y)) if u != v] if len(x) == len(y) else None
            ctx.violation("%s: record %d differs from that of the same model on its own (fields %s)" % (what, i, f),
                          alone=repr([x[k] for k in (f or range(len(x)))])[:1200], here=repr([y[k] for k in (f or range(len(y)))])[:1200], spec=spec)
            return False
    return ctx.expect(len(a) == len(b), "%s: %d records instead of %d" % (what, len(b), len(a)), spec=spec)


def in_own_process(specs):
    """The same logs from a process for each model."""
    out = []
    for spec, segs in specs:
        code = ("import sys, json, os\n"
                "sys.path[:0] = %r\n"
                "os.chdir(%r)\n"
                "from kmcv.checks import c19\n"
                "d = json.loads(sys.stdin.read())\n"
                "r = json.dumps(c19.alone(*d))\n"
                "print('LOG' + r)\n" % ([p for p in sys.path if p], os.getcwd()))
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps([spec, segs]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        text = p.stdout.decode(errors="replace")
        if p.returncode != 0 or "LOG" not in text:
            raise RuntimeError("a model on its own ended with status %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-800:]))
        out.append(json.loads(text[text.index("LOG") + 3:]))
    return out


def plain_json(x):
    return json.loads(json.dumps(x))


def mixed(ctx, case):
    rng = random.Random("c19-%s" % case["seed"])
    k = rng.choice([2, 2, 3, 4])
    specs = []
    for i in range(k):
        if specs and rng.random() < 0.3:
            # the same model once more, with other contents
            s = copy.deepcopy(specs[-1][0])
            rng.shuffle(s["types"])
        else:
            s = some_model(rng)
        specs.append((s, plan(rng, s)))
    if case["own_process"]:
        base = in_own_process(specs)
        ctx.count("own_process", len(specs))
    else:
        base = [plain_json(alone(*x)) for x in specs]
    junk = []
    depth = [0]
    budget = [60]

    def meddle(where, life=None, conf=None):
        """Use the library for something else in between."""
        if depth[0] or budget[0] <= 0 or rng.random() > (0.01 if where == "rate" else 0.15):
            if where == "after" and life is not None and rng.random() < 0.3:
                scribble_results(conf)
            return
        depth[0] += 1
        budget[0] -= 1
        try:
            ctx.count("meddled_in_" + where)
            w = rng.random()
            if w < 0.5:
                s = some_model(rng, max_sites=40)
                m = trace.build(s)
                m._backend()
                if rng.random() < 0.6:
                    junk.append((s, m))
            elif w < 0.65 and junk:
                junk.pop(rng.randrange(len(junk)))
                if rng.random() < 0.2:
                    gc.collect()
            elif w < 0.8 and junk:
                s, m = rng.choice(junk)
                drive.sites_of(m)
                m._backend().configuration().configMatchList(0)
            else:
                s = some_model(rng, max_sites=40)
                c = gen.realize_config(s)
                lm = c._latticeMap()
                lm.neighbourIndices(rng.randrange(geom.Lattice(s).n), rng.choice([1, 2, 3]))
                lm.indicesFromCell(0, 0, 0)
        finally:
            depth[0] -= 1

    def scribble_results(conf):
        ctx.count("results_scribbled_on")
        t = conf.types()
        if isinstance(t, list):
            for s in t:
                if isinstance(s, list):
                    s.append("junk")
            t.reverse()
            t.append("junk")
        c = conf.atomIDCoordinates()
        c[...] = -77.0
        for q in (conf.atomIDTypes, conf.movedAtomIDs, conf.particlesPerType):
            x = q()
            if isinstance(x, list):
                x.append(None)

    lives = [None] * k
    todo = []
    for i, (s, segs) in enumerate(specs):
        todo += [i] * (len(segs) + 1)
    rng.shuffle(todo)
    for i in todo:
        if rng.random() < 0.4:
            meddle("between")
        if lives[i] is None:
            lives[i] = Life(specs[i][0], specs[i][1], None, meddle)
            if rng.random() < 0.6:
                ctx.count("arguments_scribbled_on", lives[i].kit.scribble(rng))
            if rng.random() < 0.4:
                lives[i].model._backend()
        else:
            if rng.random() < 0.3:
                other = rng.choice([x for x in lives if x is not None and x.model is not None])
                other.model._backend()
                other.kit.conf.types()
                scribble_results(other.kit.conf)
            depth_before = depth[0]
            lives[i].segment()
            depth[0] = depth_before
            ctx.count("segments")
            if lives[i].done == len(specs[i][1]) and rng.random() < 0.5:
                # gone, while the others go on
                log = lives[i].log
                same(ctx, "model %d of %d" % (i, k), base[i], plain_json(log), specs[i][0])
                ctx.seen("mixed", hash(str(log[-4:])))
                lives[i].kit = lives[i].model = None
                lives[i].log = None
                ctx.count("discarded_early")
                if rng.random() < 0.3:
                    gc.collect()
    for i in range(k):
        if lives[i] is not None and lives[i].log is not None:
            same(ctx, "model %d of %d" % (i, k), base[i], plain_json(lives[i].log), specs[i][0])
            ctx.seen("mixed", hash(str(lives[i].log[-4:])))
    ctx.sample({"kind": "mixed", "models": [[s["mode"], s["reps"], len(s["basis"]), len(s["procs"]), bool(s["calc"])] for s, g in specs], "schedule": todo})


def shared(ctx, case):
    """The same Python objects used for several models."""
    rng = random.Random("c19-%s" % case["seed"])
    first = some_model(rng)
    k = rng.choice([2, 2, 3])
    specs = []
    level = rng.choice(["lattice", "processes", "interactions", "interactions", "lattice+interactions"])
    for i in range(k):
        s = copy.deepcopy(first)
        lat = geom.Lattice(s)
        if "lattice" not in level:
            # another size
            s["reps"] = [r + (rng.choice([0, 1, 2]) if r > 1 else 0) for r in s["reps"]]
            lat = geom.Lattice(s)
            if rng.random() < 0.5:
                rng.shuffle(s["ptypes"])
            if rng.random() < 0.3:
                s["ptypes"].append("more%d" % i)
        if level == "lattice":
            other = gen.model(rng, basis=first["basis"], mode=rng.choice(["plain", "bucket"]), max_sites=100)
            other["basis"], other["reps"], other["periodic"], other["cell"] = first["basis"], first["reps"], first["periodic"], first["cell"]
            o = geom.Lattice(other)
            if all(lat.reps[d] >= 3 or not lat.per[d] for d in range(3)) and not other["calc"]:
                s = other
        pool = s["types"]
        s["types"] = [copy.deepcopy(pool[rng.randrange(len(pool))]) for _ in range(lat.n)]
        if s["mode"] == "bucket" and s["types"] and not any(s["types"]):
            s["types"][0] = [[1, s["ptypes"][0]]]
        specs.append((s, plan(rng, s)))
    base = []
    for x in specs:
        try:
            base.append(plain_json(alone(*x)))
        except KMCLib.Exceptions.Error.Error as e:
            base.append(str(e))
    kit = Kit(first)
    pool = {}
    if "lattice" in level:
        pool["lattice"] = kit.lattice()
    cls = calc.make(first["calc"], None) if first["calc"] else None
    if "interactions" in level:
        pool["interactions"] = kit.interactions(cls)
    elif level == "processes":
        pool["processes"] = [kit.process(p) for p in first["procs"]]
    lives = [None] * k
    todo = []
    for i, (s, segs) in enumerate(specs):
        todo += [i] * (len(segs) + 1)
    rng.shuffle(todo)
    for i in todo:
        if isinstance(base[i], str):
            continue
        if lives[i] is None:
            lives[i] = Life(specs[i][0], specs[i][1], pool)
        else:
            lives[i].segment()
            ctx.count("segments")
    drop = lambda log: [r for r in log if r[0] != "calls"]
    for i in range(k):
        if lives[i] is not None:
            a, b = base[i], plain_json(lives[i].log)
            if first["calc"] and "interactions" in level:
                a, b = drop(a), drop(b)
            same(ctx, "model %d of %d built from the same %s" % (i, k, level), a, b, specs[i][0])
            ctx.seen("shared", level, hash(str(b[-4:])))
            ctx.count("shared_" + level.replace("+", "_"))


def handoff(ctx, case):
    """Several models take turns on one configuration."""
    rng = random.Random("c19-%s" % case["seed"])
    s = some_model(rng, open_ok=False)
    k = rng.choice([2, 2, 3])
    conf = gen.realize_config(s)
    specs, models = [], []
    lat = geom.Lattice(s)
    for i in range(k):
        t = dict(s)
        if i:
            n = rng.randint(1, len(s["procs"]))
            t["procs"] = [dict(copy.deepcopy(p), rate=p["rate"] * rng.choice([1.0, 3.0, 0.25])) for p in rng.sample(s["procs"], n)]
            if s["calc"]:
                t["calc"] = rng.choice([None, dict(s["calc"], exclude=[], cutoff=rng.choice([s["calc"]["cutoff"], 1.0]))])
        specs.append(t)
        models.append(KMCLib.KMCLatticeModel(configuration=conf, interactions=gen.realize_interactions(t, calc.make(t["calc"]) if t["calc"] else None)))
        if rng.random() < 0.3:
            models[-1]._backend()
    clock = [0.0] * k
    last = [None]
    for turn in range(rng.choice([3, 5, 8])):
        i = rng.randrange(k)
        bad = [False]

        def look(step, time, c):
            if bad[0]:
                return
            content = drive.contents(c, s["mode"] == "bucket")
            first = step == 0
            if first:
                ctx.expect(last[0] is None or content == last[0], "a run does not start from the state the previous model left")
                if not ctx.expect(abs(time - clock[i]) <= 1e-12 * abs(time), "the clock of a model is %r after another used its configuration, it was %r" % (time, clock[i])):
                    bad[0] = True
            clock[i], last[0] = time, content
            if first or step % 4 == 0:
                got = [sorted(x) for x in drive.sites_of(models[i])]
                t = dict(specs[i])
                t["types"] = list(content) if s["mode"] == "plain" else [sorted([n, ty] for ty, n in d.items() if n) for d in content]
                fresh = trace.build(t)
                want = [sorted(x) for x in drive.sites_of(fresh)]
                ctx.count("handoff_states")
                if not ctx.expect(got == want, "turn %d, step %d: the available sites are not those of a model built anew from the configuration" % (turn, step),
                                  got=got, want=want, spec=t):
                    bad[0] = True
                r1, r2 = float(models[i]._backend().interactions().totalRate()), float(fresh._backend().interactions().totalRate())
                top = max(r2, max([p["rate"] for p in t["procs"]]) * 1e3)
                if not t["calc"]:
                    ctx.expect(abs(r1 - r2) <= 1e-9 * top, "turn %d, step %d: total rate %r, that of a new model is %r" % (turn, step, r1, r2))
                ctx.seen("handoff", hash(str(content)))

        spec = dict(specs[i], seed=rng.randrange(1, 1 << 30))
        drive.run(models[i], spec, rng.choice([1, 4, 10, 20]), look)
        ctx.count("turns")
        if bad[0]:
            return


def run_case(ctx, case):
    {"mixed": mixed, "shared": shared, "handoff": handoff}[case["kind"]](ctx, case)
