"""C10: a generated script rebuilds an equivalent object."""
import copy
import os
import random

import numpy

import KMCLib
from KMCLib.Utilities import SaveAndReadUtilities
from kmcv import drive, gen, trace
from kmcv.geom import Lattice

QUICK, THOROUGH = 700, 9000
ODD = ["A'", 'B"q', "C\\n", "quite_a_long_type_name_to_fill_the_line"]


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"mode": "plain"}
        if i % 5 == 1:
            opts["names"] = ODD
        if i % 9 == 2:
            opts["implicit"] = False
        if i % 3 == 1:
            opts["moves_only"] = True
        if i % 4 == 3:
            opts["shells"] = 2
        yield {"kind": "model", "seed": "%d-c10-%d" % (seed, i), "opts": opts, "run": i % 3 == 0,
               "digits": i % 2 == 0}
    for i in range(n // 10):
        yield {"kind": "lengths", "seed": "%d-c10l-%d" % (seed, i)}
    for i in range(n // 10):
        yield {"kind": "local", "seed": "%d-c10c-%d" % (seed, i)}
    for i in range(n // 8):
        yield {"kind": "atk", "seed": "%d-c10a-%d" % (seed, i), "opts": {"mode": "plain", "moves_only": i % 2 == 0}}


def near(a, b, rel=1.2e-6, floor=1e-12):
    a, b = numpy.asarray(a, float), numpy.asarray(b, float)
    return a.shape == b.shape and bool(numpy.all(abs(a - b) <= rel * numpy.maximum(abs(a), abs(b)) + floor))


def execute(script, name=None):
    env = {}
    with drive.quiet():
        exec("from KMCLib import *", env)
        exec(compile(script, "script", "exec"), env)
    return env if name is None else env[name]


def key(c):
    return tuple(round(float(x), 4) + 0.0 for x in c)


def describe(p):
    """A process as position -> (before, after), moves as from -> vector."""
    co = p.localConfigurations()[0].coordinates()
    pos = {key(c): (str(a), str(b)) for c, a, b in zip(co, p.elementsBefore(), p.elementsAfter())}
    moves = {key(co[i]): key(v) for i, v in p.moveVectors()}
    return pos, moves, [int(b) for b in p.basisSites()]


def compare_lattice(ctx, a, b):
    ctx.expect(near(a.unitCell().cellVectors(), b.unitCell().cellVectors()), "the cell vectors of the rebuilt lattice differ")
    ctx.expect(near(a.basis(), b.basis()), "the basis of the rebuilt lattice differs")
    ctx.expect(tuple(a.repetitions()) == tuple(b.repetitions()), "the rebuilt lattice has repetitions %s" % (b.repetitions(),))
    ctx.expect(tuple(a.periodic()) == tuple(b.periodic()), "the rebuilt lattice has periodicity %s" % (b.periodic(),))
    ctx.expect(near(a.sites(), b.sites(), floor=2e-6), "the sites of the rebuilt lattice differ")
    ctx.count("lattices")


def compare_conf(ctx, a, b):
    compare_lattice(ctx, a.lattice(), b.lattice())
    ta, tb = list(a.types()), list(b.types())
    bad = [(i, x, y) for i, (x, y) in enumerate(zip(ta, tb)) if x != y]
    ctx.expect(len(ta) == len(tb) and not bad, "the rebuilt configuration has other types: %d sites instead of %d, (site, type, rebuilt) %s" % (
        len(tb), len(ta), bad[:4]))
    ctx.expect(a.possibleTypes() == b.possibleTypes(), "possible types %s are rebuilt as %s" % (a.possibleTypes(), b.possibleTypes()))
    ctx.count("configurations")


def compare_process(ctx, a, b):
    da, db = describe(a), describe(b)
    ctx.expect(da[0] == db[0], "a process with positions %s is rebuilt with %s" % (da[0], db[0]))
    ctx.expect(da[1] == db[1], "a process with moves %s is rebuilt with %s" % (da[1], db[1]))
    ctx.expect(da[2] == db[2], "a process of basis sites %s is rebuilt with %s" % (da[2], db[2]))
    ctx.expect(near([a.rateConstant()], [b.rateConstant()], floor=0), "rate constant %r is rebuilt as %r" % (a.rateConstant(), b.rateConstant()))
    ctx.expect(near(a.localConfigurations()[0].coordinates()[0], [0, 0, 0]), "the first position of a process is not its centre")
    ctx.expect(key(b.localConfigurations()[0].coordinates()[0]) == (0, 0, 0), "the first position of a rebuilt process is not its centre")
    ctx.count("processes")


def stable(ctx, what, rebuilt):
    """The script of the rebuilt object, executed again, gives that script."""
    s2 = rebuilt._script("thing")
    again = execute(s2, "thing")
    ctx.expect(again._script("thing") == s2, "the script of a rebuilt %s changes when it is executed again" % what)


def round_spec(spec):
    """Values that scripts print exactly."""
    spec = copy.deepcopy(spec)
    for p in spec["procs"]:
        p["rate"] = float("%15.6e" % p["rate"])
    return spec


def model_case(ctx, case):
    spec = trace.spec_for(case)
    rng = random.Random("script-" + case["seed"])
    if case["digits"]:
        spec = round_spec(spec)
    conf = gen.realize_config(spec)
    procs = [gen.realize_process(spec, p) for p in spec["procs"]]
    inter = KMCLib.KMCInteractions(processes=procs, implicit_wildcards=spec["implicit"])
    model = KMCLib.KMCLatticeModel(configuration=conf, interactions=inter)
    if case["run"]:
        try:
            drive.run(model, spec, rng.randint(1, 60))
        except KMCLib.Exceptions.Error.Error:
            pass
        ctx.count("after_runs")
    # what to write first: nothing may depend on what was asked before
    order = ["conf", "inter", "model", "lattice", "process", "cell"]
    rng.shuffle(order)
    for what in order:
        if what == "conf":
            script = conf._script("a_name")
            c2 = execute(script, "a_name")
            compare_conf(ctx, conf, c2)
            stable(ctx, "configuration", c2)
            path = os.path.join(ctx.scratch, "conf.py")
            with open(path, "w") as f:
                f.write("from KMCLib import *\n" + script)
            compare_conf(ctx, conf, KMCLib.KMCConfigurationFromScript(path))
            ctx.count("read_from_files")
        elif what == "inter":
            script = inter._script("a_name")
            env = execute(script)
            i2, pb = env["a_name"], env["processes"]
            ctx.expect(len(procs) == len(pb), "%d processes are rebuilt as %d" % (len(procs), len(pb)))
            for x, y in zip(procs, pb):
                compare_process(ctx, x, y)
            ctx.expect(inter.implicitWildcards() == i2.implicitWildcards(), "implicit wildcards are rebuilt as %s" % i2.implicitWildcards())
            stable(ctx, "set of interactions", i2)
            path = os.path.join(ctx.scratch, "inter.py")
            with open(path, "w") as f:
                f.write("from KMCLib import *\n" + script)
            i3 = KMCLib.KMCInteractionsFromScript(path)
            ctx.expect(i3._script("x") == i2._script("x"), "interactions read from a file differ from those executed")
        elif what == "lattice":
            l2 = execute(conf.lattice()._script("a_name"), "a_name")
            compare_lattice(ctx, conf.lattice(), l2)
            stable(ctx, "lattice", l2)
        elif what == "cell":
            u = conf.lattice().unitCell()
            u2 = execute(u._script("a_name"), "a_name")
            ctx.expect(near(u.cellVectors(), u2.cellVectors()) and near(u.basis(), u2.basis()), "a unit cell is rebuilt differently")
            stable(ctx, "unit cell", u2)
        elif what == "process":
            p = rng.choice(procs)
            p2 = execute(p._script("a_name"), "a_name")
            compare_process(ctx, p, p2)
            stable(ctx, "process", p2)
        else:
            env = execute(model._script("a_name"))
            m2 = env["a_name"]
            path = os.path.join(ctx.scratch, "model.py")
            with open(path, "w") as f:
                f.write("from KMCLib import *\n" + model._script())
            if rng.random() < 0.5:
                m2 = SaveAndReadUtilities.KMCLatticeModelFromScript(path)
                ctx.count("models_read_from_files")
            compare_conf(ctx, conf, env["configuration"])
            if case["digits"]:
                same_simulation(ctx, spec, conf, m2)
    ctx.seen(hash(model._script()))
    ctx.sample({"script": inter._script()[:500]})


def same_simulation(ctx, spec, conf, rebuilt):
    s = dict(spec)
    s["types"] = list(conf.types())
    ref = gen.realize(s)
    ha, hb = [], []

    def watch(h):
        def f(step, time, c):
            h.append((step, time, int(c.latestEventProcess()) if h else 0, int(c.latestEventSite()) if h else 0, c.types()))
        return f
    ra = drive.run(ref, spec, 30, watch(ha))
    rb = drive.run(rebuilt, spec, 30, watch(hb))
    bad = [i for i, (x, y) in enumerate(zip(ha, hb)) if x != y]
    ctx.expect(ra == rb and len(ha) == len(hb) and not bad, "the rebuilt model simulates something else: step %s %s instead of %s (%s, %s)" % (
        bad[:1], bad and hb[bad[0]][:4], bad and ha[bad[0]][:4], ra, rb), spec=spec)
    ctx.count("simulations_compared")
    ctx.count("steps_compared", len(ha))


def lengths(ctx, case):
    """Type lists of any length and names of any length, broken over lines in any way."""
    rng = random.Random(case["seed"])
    names = ["T%s" % ("x" * rng.randint(0, 60)) + str(i) for i in range(rng.randint(1, 40))]
    n = rng.choice([1, 2, 3, 9, 10, 11, 12, 13, 25, 100, 777])
    basis = [[0.0, 0.0, 0.0]]
    uc = KMCLib.KMCUnitCell(cell_vectors=rng.choice(gen.CELLS), basis_points=basis)
    lat = KMCLib.KMCLattice(unit_cell=uc, repetitions=(n, 1, 1), periodic=(rng.random() < 0.5, False, True))
    few = names[:rng.randint(1, len(names))]
    c = KMCLib.KMCConfiguration(lattice=lat, types=[rng.choice(few) for _ in range(n)], possible_types=names)
    c2 = execute(c._script("c"), "c")
    compare_conf(ctx, c, c2)
    stable(ctx, "configuration", c2)
    # a process with many positions
    k = rng.randint(1, 30)
    co = [[float(i), float(j), 0.0] for i in range(-3, 4) for j in range(-3, 4)]
    rng.shuffle(co)
    co = [[0.0, 0.0, 0.0]] + [x for x in co if x != [0.0, 0.0, 0.0]][:k]
    before = [rng.choice(names) for _ in co]
    after = [rng.choice(names) for _ in co]
    for i in range(1, len(co)):
        if rng.random() < 0.3:
            before[i] = after[i] = "*"
    if before == after:
        after[0] = before[0] + "?"
    bs = sorted(rng.sample(range(12), rng.randint(1, 8)))
    p = KMCLib.KMCProcess(coordinates=co, elements_before=before, elements_after=after, basis_sites=bs,
                          rate_constant=10.0 ** rng.uniform(-300, 300))
    p2 = execute(p._script("p"), "p")
    compare_process(ctx, p, p2)
    stable(ctx, "process", p2)
    ctx.count("line_breaks")
    ctx.seen(hash(c._script()))


def local(ctx, case):
    rng = random.Random(case["seed"])
    n = rng.randint(1, 12)
    co = [[rng.uniform(-4, 4) for _ in range(3)] for _ in range(n)]
    types = [rng.choice(["A", "B", "*"]) if rng.random() < 0.7 else [(rng.randint(1, 3), "A"), (1, "B")] for _ in range(n)]
    l = KMCLib.KMCLocalConfiguration(coordinates=co, types=types, center=rng.randrange(n))
    l2 = execute(l._script("l"), "l")
    ctx.expect(near(l.coordinates() - l.coordinates()[0], l2.coordinates(), floor=2e-5), "a local configuration is rebuilt with other coordinates")
    ctx.expect(l.types() == l2.types(), "a local configuration with types %s is rebuilt with %s" % (l.types(), l2.types()))
    ctx.count("local_configurations")


def atk(ctx, case):
    """The ATK script names the current particles and where they are."""
    spec = trace.spec_for(case)
    rng = random.Random("atk-" + case["seed"])
    conf = gen.realize_config(spec)
    model = KMCLib.KMCLatticeModel(configuration=conf, interactions=gen.realize_interactions(spec))
    drive.run(model, spec, rng.randint(1, 40))
    present = list(spec["ptypes"])
    chosen = rng.sample(present, rng.randint(0, len(present)))
    tmap = {t: "El%d" % i for i, t in enumerate(chosen)}
    script = conf._atkScript(tmap)
    got = {}
    env = {"Angstrom": 1.0, "UnitCell": lambda *v: v, "BulkConfiguration": lambda **kw: got.update(kw)}
    for e in tmap.values():
        env[e] = e
    vec = []

    class V(list):
        def __mul__(self, x):
            return self
    exec(compile(script.replace("]*Angstrom", "]"), "atk", "exec"), env)
    want = [(tmap[t], c) for t, c in zip(conf.atomIDTypes(), conf.atomIDCoordinates()) if t in tmap]
    ctx.expect(list(got["elements"]) == [w[0] for w in want], "the ATK script lists %s instead of %s" % (
        list(got["elements"])[:6], [w[0] for w in want][:6]))
    cart = [numpy.dot(c, numpy.array(spec["cell"])) for _, c in want]
    vectors = numpy.array([list(v) for v in got["bravais_lattice"]])
    for i, (f, c) in enumerate(zip(got["fractional_coordinates"], cart)):
        if not numpy.allclose(numpy.dot(numpy.array(f), vectors), c, atol=2e-6):
            ctx.violation("the ATK script places particle %d at %s instead of %s" % (i, numpy.dot(numpy.array(f), vectors), c))
            break
    ctx.expect(len(got["fractional_coordinates"]) == len(want), "the ATK script has %d coordinates for %d particles" % (
        len(got["fractional_coordinates"]), len(want)))
    ctx.count("atk_scripts")


def run_case(ctx, case):
    {"model": model_case, "lengths": lengths, "local": local, "atk": atk}[case["kind"]](ctx, case)
