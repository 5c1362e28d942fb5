"""C16: well-formed input is represented faithfully in every documented form, ill-formed input is rejected."""
import random
import traceback

import numpy

import KMCLib
from KMCLib.Exceptions.Error import Error

from kmcv import calc, drive, gen, geom
from kmcv.worker import Skip

NAN, INF = float("nan"), float("inf")


# -- descriptions as constructor arguments ------------------------------------------------------------
def arguments(spec, rng):
    """The arguments of every constructor call that builds the model of a spec."""
    a = {"unit_cell": {"cell_vectors": [list(map(float, v)) for v in spec["cell"]], "basis_points": [list(map(float, b)) for b in spec["basis"]]},
         "lattice": {"repetitions": tuple(spec["reps"]), "periodic": tuple(bool(x) for x in spec["periodic"])},
         "configuration": {"possible_types": list(spec["ptypes"])}, "processes": [],
         "interactions": {"implicit_wildcards": spec["implicit"]}, "calculator": None, "model": {},
         "control": {"number_of_steps": 12, "dump_interval": 3, "analysis_interval": 2, "seed": spec["seed"], "rng_type": spec["rng"]},
         "run": {}, "mode": spec["mode"]}
    if spec["mode"] == "bucket":
        a["configuration"]["types"] = [[(n, t) for n, t in s] for s in spec["types"]]
    else:
        a["configuration"]["types"] = list(spec["types"])
    for p in spec["procs"]:
        if spec["mode"] == "bucket":
            a["processes"].append({"coordinates": [list(c) for c in p["coords"]], "minimum_match": [[(n, t) for n, t in m] for m in p["match"]],
                                   "update": [[(n, t) for n, t in u] for u in p["update"]], "basis_sites": list(p["bsites"]), "rate_constant": p["rate"]})
        else:
            mv = None if p.get("moves") is None else [(i, [float(x) for x in v]) for i, v in p["moves"]]
            a["processes"].append({"coordinates": [list(c) for c in p["coords"]], "elements_before": list(p["before"]),
                                   "elements_after": list(p["after"]), "move_vectors": mv, "basis_sites": list(p["bsites"]), "rate_constant": p["rate"]})
    return a


class Built(object):
    pass


def construct(a):
    b = Built()
    b.unit_cell = KMCLib.KMCUnitCell(**a["unit_cell"])
    b.lattice = KMCLib.KMCLattice(**dict({"unit_cell": b.unit_cell}, **a["lattice"]))
    b.configuration = KMCLib.KMCConfiguration(**dict({"lattice": b.lattice}, **a["configuration"]))
    cls = KMCLib.KMCBucketProcess if a["mode"] == "bucket" else KMCLib.KMCProcess
    b.processes = [cls(**p) for p in a["processes"]]
    b.interactions = KMCLib.KMCInteractions(**dict({"processes": b.processes}, **a["interactions"]))
    if a["calculator"] is not None:
        b.interactions.setRateCalculator(a["calculator"])
    b.model = KMCLib.KMCLatticeModel(**dict({"configuration": b.configuration, "interactions": b.interactions}, **a["model"]))
    b.control = KMCLib.KMCControlParameters(**a["control"])
    return b


def use(b, a):
    """Everything up to and including a short run; an observer records the run."""
    seen = []
    bucket = a["mode"] == "bucket"
    kw = dict(a["run"])
    obs = drive.Observer(lambda s, t, c: seen.append((s, t, repr([sorted(x.items()) for x in drive.contents(c, True)] if bucket else drive.contents(c, False)), int(c.latestEventProcess()), int(c.latestEventSite()))))
    if "analysis" not in kw:
        kw["analysis"] = [obs]
    kw.setdefault("control_parameters", b.control)
    with drive.quiet():
        try:
            b.model.run(**kw)
        except Error as e:
            if "available processes" not in str(e):
                raise
    return seen


# -- ill-formed input ------------------------------------------------------------------------------
JUNK = [None, object(), 3.5, -1, "junk", lambda x: x, 2j, {"a": 1}, set([1]), b"bytes", (), Ellipsis]


def anyhow(fn):
    """Any exception will do (nothing is documented about this input)."""
    fn.anyhow = True
    return fn


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def junk(rng, *, but=()):
    """Something which is of none of the given kinds."""
    return pick(rng, [j for j in JUNK if not isinstance(j, but) and not (j is None and None in (but if isinstance(but, tuple) else ()))])


SEQ = (list, tuple, str, bytes, dict, set)


def bad_unit_cell(rng, a):
    u = a["unit_cell"]
    cv, bp = u["cell_vectors"], u["basis_points"]
    i, j = rng.randrange(3), rng.randrange(3)
    k = rng.randrange(len(bp))
    arr = rng.random() < 0.5

    def cell(x):
        u["cell_vectors"] = numpy.array(x) if arr else x

    def entry(x):
        cv[i][j] = x
        cell(cv)

    def point(x):
        bp[k][j] = x
        u["basis_points"] = numpy.array(bp) if arr and not isinstance(x, (int, str)) else bp
    return pick(rng, [
        lambda: u.update(cell_vectors=junk(rng)),
        lambda: cell(cv[:2]), lambda: cell([r[:2] for r in cv]), lambda: cell(cv + [[1.0, 1.0, 1.0]]),
        lambda: cell([[int(x) for x in r] for r in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]),
        lambda: cell([cv[0], cv[1], cv[0]]), lambda: cell([cv[0], cv[1], [0.0, 0.0, 0.0]]),
        lambda: cell([cv[0], cv[1], [2 * x - y for x, y in zip(cv[0], cv[1])]]),
        lambda: entry(NAN), lambda: entry(INF), lambda: entry(-INF),
        lambda: u.update(basis_points=junk(rng)), lambda: u.update(basis_points=[]),
        lambda: bp.insert(k, [0.5, 0.5]), lambda: bp.insert(k, [0.5, 0.5, 0.5, 0.5]), lambda: bp.insert(k, 0.5), lambda: bp.insert(k, []),
        lambda: point(1.0), lambda: point(-1e-6), lambda: point(2.75), lambda: point(-0.25), lambda: point(NAN), lambda: point(INF),
        lambda: point(0), lambda: point("0.5"), lambda: bp.insert(k, None),
    ])


def bad_lattice(rng, a):
    lt = a["lattice"]
    reps, per = list(lt["repetitions"]), list(lt["periodic"])
    d = rng.randrange(3)

    def rep(x):
        reps[d] = x
        lt["repetitions"] = pick(rng, [tuple, list])(reps)

    def pr(x):
        per[d] = x
        lt["periodic"] = pick(rng, [tuple, list])(per)
    return pick(rng, [
        lambda: lt.update(unit_cell=junk(rng)), lambda: lt.update(unit_cell=KMCLib.KMCUnitCell),
        lambda: lt.update(repetitions=junk(rng, but=(type(None),))), lambda: lt.update(repetitions=tuple(reps[:2])),
        lambda: lt.update(repetitions=tuple(reps + [1])),
        lambda: rep(0), lambda: rep(-1), lambda: rep(-3), lambda: rep(2.0), lambda: rep("2"), lambda: rep(None), lambda: rep([2]),
        lambda: lt.update(periodic=junk(rng, but=(type(None),))), lambda: lt.update(periodic=tuple(per[:2])), lambda: lt.update(periodic=tuple(per + [True])),
        lambda: pr(1), lambda: pr(0), lambda: pr(None), lambda: pr("True"), lambda: pr(1.0), lambda: lt.update(periodic=True),
    ])


def to_long(rng, spec, conf, lat):
    """The long form of the types, with the most common type left to the default in part."""
    types = conf["types"]
    default = pick(rng, types)
    out = []
    for s in range(lat.n):
        if types[s] != default or rng.random() < 0.3:
            i, j, k, b = lat.cell(s)
            out.append((i, j, k, b, types[s]))
    rng.shuffle(out)
    if not out:
        i, j, k, b = lat.cell(0)
        out.append((i, j, k, b, types[0]))
    return out, default


def bad_configuration(rng, a, spec, lat):
    c = a["configuration"]
    types = c["types"]
    s = rng.randrange(len(types))
    rules = [
        lambda: c.update(lattice=junk(rng)), lambda: c.update(types=junk(rng)), lambda: c.update(types=tuple(types)),
        lambda: types.pop(s), lambda: types.append(types[s]), lambda: c.update(types=[]), lambda: c.update(types=types * 2),
        lambda: types.__setitem__(s, 7), lambda: types.__setitem__(s, None), lambda: types.__setitem__(s, 2.5), lambda: types.__setitem__(s, {"A": 1}),
        lambda: c.update(possible_types=tuple(c["possible_types"])), lambda: c.update(possible_types="".join(c["possible_types"])),
        lambda: c.update(possible_types=junk(rng, but=(type(None),))),
        lambda: c["possible_types"].insert(rng.randrange(len(c["possible_types"])), "*"),
        lambda: c["possible_types"].insert(rng.randrange(len(c["possible_types"])), pick(rng, c["possible_types"])),
        lambda: c["possible_types"].insert(rng.randrange(len(c["possible_types"])), 1),
        lambda: c.update(default_type=pick(rng, c["possible_types"])),
    ]
    if spec["mode"] == "bucket":
        t = pick(rng, c["possible_types"])
        rules += [
            lambda: types.__setitem__(s, [(-1, t)]), lambda: types.__setitem__(s, [(2, t), (-3, t)]), lambda: types.__setitem__(s, (-2, t)),
            lambda: types.__setitem__(s, [(1.0, t)]), lambda: types.__setitem__(s, [(t, 1)]), lambda: types.__setitem__(s, [(1, t, 1)]),
            lambda: types.__setitem__(s, [(1,)]), lambda: types.__setitem__(s, [[1, t]]), lambda: types.__setitem__(s, [[t]]),
            lambda: types.__setitem__(s, [None]), lambda: types.__setitem__(s, [(1, 1)]), lambda: types.__setitem__(s, (1, "no such type")),
            lambda: types.__setitem__(s, ["no such type"]), lambda: types.__setitem__(s, [(1, "*")]), lambda: types.__setitem__(s, "*"),
            lambda: types.__setitem__(s, [("1", t)]),
        ]
        rules += rules[-16:]
    else:
        long_, default = to_long(rng, spec, c, lat)
        # at least one site is left to the default
        long_ = long_[:lat.n - 1]
        k = rng.randrange(len(long_))
        i, j, l, b, t = long_[k]
        nI, nJ, nK = lat.reps

        def lng(entry, **kw):
            long_[k] = entry
            c.update(dict({"types": long_, "default_type": default}, **kw))
        rules += [lambda: types.__setitem__(s, "*"), lambda: types.__setitem__(s, "no such type"), lambda: types.__setitem__(s, [types[s]] * 0 + [(-1, types[s])])]
        lrules = [
            lambda: c.update(types=long_), lambda: lng(long_[k], default_type=3), lambda: lng(long_[k], default_type=["A"]),
            lambda: lng(long_[k], default_type="no such type"), lambda: lng(long_[k], default_type="*"),
            lambda: lng((nI, j, l, b, t)), lambda: lng((i, nJ, l, b, t)), lambda: lng((i, j, nK, b, t)), lambda: lng((i, j, l, lat.nb, t)),
            lambda: lng((-1, j, l, b, t)), lambda: lng((i, -1, l, b, t)), lambda: lng((i, j, -1, b, t)), lambda: lng((i, j, l, -1, t)),
            lambda: lng((i, j, l, t)), anyhow(lambda: lng((i, j, l, b, t, t))), lambda: lng((i, j, l, b, 1)), lambda: lng((i, j, l, b, None)),
            lambda: lng((float(i), j, l, b, t)), lambda: lng((i, str(j), l, b, t)), lambda: lng([i, j, l, b, t]), lambda: lng(t),
            lambda: lng((i, j, l, b, "no such type")), lambda: lng((i, j, l, b, "*")), lambda: lng(None), anyhow(lambda: lng(())),
        ]
        rules = rules + lrules
    # removing a present type from the possible ones
    present = [t for t in spec["ptypes"] if any(t == x or (isinstance(x, list) and any(y[1] == t for y in x)) for x in spec["types"])]
    rules.append(lambda: c["possible_types"].remove(pick(rng, present)) if present else c.update(types=None))
    return pick(rng, rules)


def bad_process(rng, a, spec):
    p = pick(rng, a["processes"])
    co = p["coordinates"]
    n = len(co)
    i, d = rng.randrange(n), rng.randrange(3)

    def cset(x):
        co[i][d] = x
    rules = [
        lambda: p.update(coordinates=junk(rng)), lambda: p.update(coordinates=[]), lambda: co.__setitem__(i, [0.0, 0.0]), lambda: co.__setitem__(i, [0.0] * 4),
        lambda: co.__setitem__(i, 1.0), lambda: cset(NAN), lambda: cset(INF), lambda: cset(-INF), lambda: cset(1), lambda: cset("0.0"), lambda: cset(None),
        lambda: co.append([9.5, 0.0, 0.0]),
        lambda: p.update(basis_sites=junk(rng, but=(bytes, set))), lambda: p.update(basis_sites=[]), lambda: p.update(basis_sites=[0.0]), lambda: p.update(basis_sites=[-1]),
        lambda: p.update(basis_sites=["0"]), lambda: p.update(basis_sites=p["basis_sites"] + [-1]), lambda: p.update(basis_sites=[None]), lambda: p.update(basis_sites=0),
        lambda: p.update(rate_constant=junk(rng, but=(float,))), lambda: p.update(rate_constant=-1.0), lambda: p.update(rate_constant=-1e-300),
        lambda: p.update(rate_constant=NAN), lambda: p.update(rate_constant=INF), lambda: p.update(rate_constant=-INF), lambda: p.update(rate_constant=2),
        lambda: p.update(rate_constant="1.0"),
    ]
    if spec["mode"] == "bucket":
        m, u = p["minimum_match"], p["update"]
        t = pick(rng, spec["ptypes"])
        have = dict((y, x) for x, y in m[i])
        more = [
            lambda: p.update(minimum_match=junk(rng, but=(dict, set, str))), lambda: p.update(update=junk(rng, but=(dict, set, str))), lambda: m.pop(i), lambda: u.pop(i), lambda: m.append([]),
            lambda: u.append([]), lambda: m.__setitem__(i, [(-1, t)]), lambda: m.__setitem__(i, [(1.0, t)]), lambda: m.__setitem__(i, [(1, 2)]),
            lambda: m.__setitem__(i, 1), lambda: m.__setitem__(i, None), lambda: m.__setitem__(i, [[t]]), lambda: m.__setitem__(i, [(1, t, 0)]),
            lambda: u.__setitem__(i, [(-have.get(t, 0) - 1, t)]), lambda: u.__setitem__(i, [(-have.get(t, 0) - 1, t), (0, t)]),
            lambda: u.__setitem__(i, [(1, t), (-have.get(t, 0) - 2, t)]), lambda: u.__setitem__(i, [(0.5, t)]), lambda: u.__setitem__(i, [(t, 1)]),
            lambda: u.__setitem__(i, None), lambda: u.__setitem__(i, [None]), lambda: u.__setitem__(i, 1),
            lambda: m.__setitem__(i, [(1, t), (1, "*")]), lambda: (m.__setitem__(i, "*"), u.__setitem__(i, ["*", (1, t)])), lambda: u.__setitem__(i, [(-1, "*")]),
            lambda: m.__setitem__(i, [(1, "no such type")]), lambda: u.__setitem__(i, [(1, "no such type")]),
        ]
    else:
        be, af, mv = p["elements_before"], p["elements_after"], p["move_vectors"]
        changed = [k for k in range(n) if be[k] != af[k]]
        same = [k for k in range(n) if be[k] == af[k]]
        ch = pick(rng, changed)

        def add(kind):
            # a move vector too many, too short, or pointing somewhere else
            base = list(mv) if mv else [(ch, [0.0, 0.0, 0.0])]
            k = rng.randrange(len(base))
            idx, v = base[k]
            v = [float(x) for x in v]
            if kind == "drop":
                base = base[:k] + base[k + 1:] if len(base) > 1 else [(n + 5, v)]
            elif kind == "nowhere":
                base[k] = (idx, [v[0] + 0.013, v[1], v[2]])
            elif kind == "far":
                base[k] = (idx, [v[0] + 40.0, v[1], v[2]])
            elif kind == "list":
                base[k] = [idx, v]
            elif kind == "float index":
                base[k] = (float(idx), v)
            elif kind == "two":
                base[k] = (idx, v[:2])
            elif kind == "four":
                base[k] = (idx, v + [0.0])
            elif kind == "int":
                base[k] = (idx, [1, 0, 0])
            elif kind == "nan":
                base[k] = (idx, [NAN, v[1], v[2]])
            elif kind == "range":
                base[k] = (n + rng.randrange(3), v)
            elif kind == "negative":
                base[k] = (idx - n, v)
            elif kind == "twice":
                base.append(base[k])
            elif kind == "short":
                base[k] = (idx,)
            elif kind == "none":
                base[k] = None
            elif kind == "string":
                base[k] = (idx, "abc")
            p["move_vectors"] = base
        more = [
            lambda: p.update(elements_before=junk(rng)), lambda: p.update(elements_after=junk(rng)), lambda: p.update(elements_before=tuple(be)),
            lambda: p.update(elements_after=tuple(af)), lambda: be.pop(), lambda: af.pop(), lambda: be.append("A"), lambda: af.append("A"),
            lambda: (be.append("A"), af.append("A")), lambda: be.__setitem__(i, 1), lambda: af.__setitem__(i, None), lambda: be.__setitem__(i, ["A"]),
            lambda: be.__setitem__(ch, "*"), lambda: af.__setitem__(ch, "*"), lambda: p.update(elements_after=list(be)), lambda: p.update(elements_before=list(af)),
            lambda: be.__setitem__(i, "no such type") if af[i] != "*" else be.pop(), lambda: af.__setitem__(i, "no such type") if be[i] != "*" else af.pop(),
        ]
        if same:
            more.append(lambda: af.__setitem__(pick(rng, same), "*") if any(af[k] != "*" for k in same) and be[same[0]] != "*" and
                        len(same) == 1 else be.append("A"))
        for kind in ("drop", "nowhere", "far", "list", "float index", "two", "four", "int", "nan", "range", "negative", "twice", "short", "none", "string"):
            fn = lambda kind=kind: add(kind)
            more.append(anyhow(fn) if kind in ("range", "short", "drop", "string", "none") else fn)
        more.append(anyhow(lambda: p.update(move_vectors=junk(rng, but=(type(None), tuple, dict, set, str, bytes, list)))))
    return pick(rng, pick(rng, [rules, more, more]))


class NotACalculator(object):
    def __init__(self, configuration):
        pass


def bad_interactions(rng, a, spec):
    x = a["interactions"]

    def calculator(c):
        a["calculator"] = c
    good = calc.make({"cutoff": 1.0, "cache": False, "exclude": [], "func": "const", "salt": 1})

    def with_cutoff(v):
        class C(good):
            def cutoff(self):
                return v
        return C

    def instance():
        # an object where a class is expected
        return good(construct(a).configuration)
    return pick(rng, [
        lambda: x.update(processes=junk(rng)), lambda: x.update(processes=[]), lambda: x.update(processes=[junk(rng)]), lambda: x.update(processes=[KMCLib.KMCProcess]),
        lambda: x.update(processes="first"), lambda: x.update(processes=construct(a).processes + [None]), lambda: x.update(processes=construct(a).processes[0]),
        lambda: x.update(implicit_wildcards=1), lambda: x.update(implicit_wildcards="True"), lambda: x.update(implicit_wildcards=0), lambda: x.update(implicit_wildcards=[]),
        lambda: calculator(junk(rng, but=(type(None), str))), lambda: calculator("NoSuchCalculator"), lambda: calculator("RateCalculator"), lambda: calculator(NotACalculator),
        lambda: calculator(KMCLib.KMCRateCalculatorPlugin), anyhow(lambda: calculator(int)), lambda: calculator(instance()),
        lambda: calculator(with_cutoff(NAN)), lambda: calculator(with_cutoff(INF)), anyhow(lambda: calculator(with_cutoff("1.0"))), lambda: calculator(with_cutoff(1e30)),
        anyhow(lambda: calculator(with_cutoff([1.0]))), lambda: calculator(with_cutoff(3e5)),
    ])


def bad_model(rng, a, spec):
    m = a["model"]
    return pick(rng, [lambda: m.update(configuration=junk(rng)), lambda: m.update(interactions=junk(rng)),
                      lambda: m.update(configuration=construct(a).interactions, interactions=construct(a).configuration),
                      lambda: m.update(configuration=construct(a).lattice), lambda: m.update(interactions=construct(a).processes)])


def bad_control(rng, a, spec):
    c = a["control"]
    k = pick(rng, ["number_of_steps", "dump_interval", "analysis_interval", "seed"])
    z = pick(rng, ["dump_interval", "analysis_interval"])

    def time(x):
        c.pop("dump_interval", None)
        c["dump_time_interval"] = x
    return pick(rng, [
        lambda: c.update({k: -1}), lambda: c.update({k: -7}), lambda: c.update({k: 2.0}), lambda: c.update({k: "5"}), lambda: c.update({k: [5]}), lambda: c.update({k: NAN}),
        lambda: c.update({z: 0}), lambda: c.update(dump_time_interval=1.0), lambda: time(0.0), lambda: time(-1.0), lambda: time(1), lambda: time(NAN), lambda: time("1.0"),
        lambda: c.update(rng_type="mt"), lambda: c.update(rng_type="NOPE"), lambda: c.update(rng_type=1), lambda: c.update(rng_type=""), anyhow(lambda: c.update(seed=2 ** 63)),
    ])


class NoBreaker(object):
    def evaluate(self, *a):
        return False


def bad_run(rng, a, spec):
    r = a["run"]
    ob = drive.Observer(lambda s, t, c: None)
    return pick(rng, [
        lambda: r.update(control_parameters=junk(rng)), lambda: r.update(control_parameters=KMCLib.KMCControlParameters),
        lambda: r.update(trajectory_filename=junk(rng, but=(str, type(None)))), lambda: r.update(trajectory_filename="t.py", trajectory_type="nope"),
        lambda: r.update(trajectory_filename="t.py", trajectory_type=3), lambda: r.update(trajectory_type=["xyz"]), lambda: r.update(trajectory_filename="t.py", trajectory_type="XYZ"),
        lambda: r.update(analysis=ob), lambda: r.update(analysis=[junk(rng)]), lambda: r.update(analysis=[ob, junk(rng)]), lambda: r.update(analysis=[drive.Observer]),
        lambda: r.update(analysis=junk(rng, but=(type(None),))), lambda: r.update(breakers=[NoBreaker()]), lambda: r.update(breakers=junk(rng, but=(type(None),))),
        lambda: r.update(breakers=[ob]), lambda: r.update(breakers=[KMCLib.KMCBreakerPlugin()] + [junk(rng)]),
    ])


def bad_analysis(rng, a, spec):
    t = pick(rng, spec["ptypes"])

    def put(fn):
        a["run"]["analysis"] = [fn()]
    k = pick(rng, ["history_steps", "n_bins"])
    f = pick(rng, [KMCLib.Composition, lambda time_interval: KMCLib.ProcessStatistics(processes=[0], time_interval=time_interval),
                   lambda time_interval: KMCLib.TimeStepDistribution(binsize=time_interval)])
    return pick(rng, [
        lambda: put(lambda: f(time_interval=-1.0)), lambda: put(lambda: f(time_interval=0.0)), lambda: put(lambda: f(time_interval=1)), lambda: put(lambda: f(time_interval=NAN)),
        lambda: put(lambda: f(time_interval=INF)), lambda: put(lambda: f(time_interval="1")),
        lambda: put(lambda: KMCLib.ProcessStatistics(processes=junk(rng, but=(bytes, set, dict)))), lambda: put(lambda: KMCLib.ProcessStatistics(processes=[])),
        lambda: put(lambda: KMCLib.ProcessStatistics(processes=[-1])), lambda: put(lambda: KMCLib.ProcessStatistics(processes=[0.0])),
        lambda: put(lambda: KMCLib.ProcessStatistics(processes=[0], spatially_resolved=1)), lambda: put(lambda: KMCLib.ProcessStatistics(processes=[0], spatially_resolved="yes")),
        lambda: put(lambda: KMCLib.OnTheFlyMSD(**{"track_type": t, k: 0})), lambda: put(lambda: KMCLib.OnTheFlyMSD(**{"track_type": t, k: -1})),
        lambda: put(lambda: KMCLib.OnTheFlyMSD(**{"track_type": t, k: 2.0})), lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=t, t_max=0.0)),
        lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=t, t_max=-1.0)), lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=t, t_max=3)),
        lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=t, t_max=NAN)), lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=None)),
        lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type=1)), lambda: put(lambda: KMCLib.OnTheFlyMSD(track_type="no such type")),
    ])


PARTS = ["unit_cell", "lattice", "configuration", "configuration", "process", "process", "process", "interactions", "model", "control", "run", "analysis"]


def reject(ctx, case):
    rng = random.Random("c16r-%s" % case["seed"])
    spec = gen.model(rng, **case.get("opts", {}))
    lat = geom.Lattice(spec)
    a = arguments(spec, rng)
    part = case["part"]
    fns = {"unit_cell": lambda: bad_unit_cell(rng, a), "lattice": lambda: bad_lattice(rng, a), "configuration": lambda: bad_configuration(rng, a, spec, lat),
           "process": lambda: bad_process(rng, a, spec), "interactions": lambda: bad_interactions(rng, a, spec), "model": lambda: bad_model(rng, a, spec),
           "control": lambda: bad_control(rng, a, spec), "run": lambda: bad_run(rng, a, spec), "analysis": lambda: bad_analysis(rng, a, spec)}
    # the original is fine ...
    ok = construct(a)
    first = use(ok, a)
    if not first and part in ("run", "analysis", "control"):
        raise Skip("nothing can happen in this model, which is reported first")
    # ... the changed one is not
    rule = fns[part]()
    ctx.count("ill_formed_" + part)
    try:
        rule()
        b = construct(a)
        use(b, a)
    except Exception as e:
        ctx.count("rejected_with_" + type(e).__name__)
        if not getattr(rule, "anyhow", False):
            ctx.expect(isinstance(e, Error), "ill-formed %s is answered with %s (%s) in place of the library's error" % (part, type(e).__name__, str(e)[:200]),
                       arguments=repr(a)[:3000], traceback=traceback.format_exc()[-1500:])
        ctx.seen(part, type(e).__name__, str(e)[:80])
        ctx.sample({"part": part, "argument": repr(a.get(part, a["processes"]))[:300], "answer": "%s: %s" % (type(e).__name__, str(e)[:120])})
    else:
        ctx.violation("ill-formed %s is accepted without complaint" % part, arguments=repr(a)[:3000], line=rule.__code__.co_firstlineno)
        return
    # a refusal leaves what exists alone
    if case["again"]:
        a2 = arguments(spec, rng)
        again = use(construct(a2), a2)
        ctx.expect(again == first, "after input was rejected the same model behaves differently", first=first[:4], again=again[:4])


# -- well-formed input in other forms -----------------------------------------------------------------
def vary_matrix(rng, m):
    return pick(rng, [lambda: [list(r) for r in m], lambda: tuple(tuple(r) for r in m), lambda: numpy.array(m), lambda: [tuple(r) for r in m],
                      lambda: [numpy.array(r) for r in m], lambda: [[numpy.float64(x) for x in r] for r in m]])()


def vary_bucket(rng, entry, plain_ok=True):
    """The same occupation in another accepted form."""
    items = [(n, t) for n, t in entry]
    if len(items) == 1 and items[0][0] == 1 and rng.random() < 0.5:
        return pick(rng, [items[0][1], [items[0][1]], (1, items[0][1])])
    if len(items) == 1 and rng.random() < 0.4:
        return items[0]
    out = []
    for n, t in items:
        while abs(n) > 1 and rng.random() < 0.5:
            s = 1 if n > 0 else -1
            k = rng.randint(1, abs(n) - 1) * s
            out.append((k, t))
            n -= k
        out.append(t if n == 1 and rng.random() < 0.5 else (n, t))
    rng.shuffle(out)
    return out


def forms(ctx, case):
    rng = random.Random("c16f-%s" % case["seed"])
    spec = gen.model(rng, **case.get("opts", {}))
    lat = geom.Lattice(spec)
    plain = arguments(spec, rng)
    b0 = construct(plain)
    ref = use(b0, plain)
    a = arguments(spec, rng)
    a["unit_cell"] = {"cell_vectors": vary_matrix(rng, a["unit_cell"]["cell_vectors"]), "basis_points": vary_matrix(rng, a["unit_cell"]["basis_points"])}
    a["lattice"] = {"repetitions": pick(rng, [list, tuple])(spec["reps"]), "periodic": pick(rng, [list, tuple])(bool(x) for x in spec["periodic"])}
    if all(r == 1 for r in spec["reps"]) and rng.random() < 0.5:
        del a["lattice"]["repetitions"]
    if all(spec["periodic"]) and rng.random() < 0.5:
        a["lattice"]["periodic"] = None
    c = a["configuration"]
    form = "short"
    if spec["mode"] == "bucket":
        c["types"] = [vary_bucket(rng, s) if s else [] for s in spec["types"]]
        form = "bucket"
    elif rng.random() < 0.6:
        c["types"], c["default_type"] = to_long(rng, spec, c, lat)
        form = "long"
    for p in a["processes"]:
        p["coordinates"] = vary_matrix(rng, p["coordinates"])
        p["basis_sites"] = pick(rng, [list, tuple])(p["basis_sites"])
        if spec["mode"] == "bucket":
            p["minimum_match"] = pick(rng, [list, tuple])(vary_bucket(rng, m) if m else [] for m in p["minimum_match"])
            p["update"] = pick(rng, [list, tuple])(vary_bucket(rng, m) if m else [] for m in p["update"])
        elif p["move_vectors"] is not None:
            p["move_vectors"] = pick(rng, [list, tuple])((i, pick(rng, [list, tuple, numpy.array])(v)) for i, v in p["move_vectors"])
    b = construct(a)
    got = use(b, a)
    ctx.count("forms_" + form)
    ctx.count("compared_steps", len(ref))
    ctx.seen("form", case["seed"])
    ctx.expect(got == ref, "the same model given in another form (%s types) runs differently" % form, arguments=repr(a)[:2500], plain=ref[:4], form=got[:4])
    # what the objects report is what was given
    fresh = construct(a)
    conf = fresh.configuration
    ctx.expect(numpy.allclose(fresh.unit_cell.cellVectors(), spec["cell"], atol=0, rtol=0), "cell vectors differ", got=repr(fresh.unit_cell.cellVectors()))
    ctx.expect(numpy.array_equal(fresh.unit_cell.basis(), numpy.array(spec["basis"])), "basis points differ", got=repr(fresh.unit_cell.basis()))
    ctx.expect(tuple(fresh.lattice.repetitions()) == tuple(spec["reps"]), "repetitions differ", got=repr(fresh.lattice.repetitions()))
    ctx.expect(tuple(fresh.lattice.periodic()) == tuple(bool(x) for x in spec["periodic"]), "periodicity differs", got=repr(fresh.lattice.periodic()))
    sites = fresh.lattice.sites()
    want = [[lat.cell(s)[d] + lat.basis[lat.cell(s)[3]][d] for d in range(3)] for s in range(lat.n)]
    ctx.expect(len(sites) == lat.n and numpy.allclose(sites, want, atol=1e-12), "sites differ", got=repr(sites[:5]))
    contents = drive.contents(conf, spec["mode"] == "bucket")
    if spec["mode"] == "bucket":
        wanted = [dict((t, n) for n, t in s if n) for s in spec["types"]]
    else:
        wanted = list(spec["types"])
    ctx.expect(contents == wanted, "the configuration holds other types than were given (%s form)" % form, got=contents[:8], given=wanted[:8])
    pt = conf.possibleTypes()
    ctx.expect(sorted(pt) == sorted(["*"] + spec["ptypes"]) and sorted(pt.values()) == list(range(len(pt))), "possible types differ", got=repr(pt))
    per = list(conf.particlesPerType())
    names = list(conf._backendTypeNames())
    count = {}
    for s in wanted:
        for t, n in (s.items() if isinstance(s, dict) else [(s, 1)]):
            count[t] = count.get(t, 0) + n
    ctx.expect(dict((t, n) for t, n in zip(names[1:], per[1:]) if n) == count, "particles per type differ", got=repr((names, per)), given=count)
    for p, obj in zip(spec["procs"], fresh.processes):
        ctx.expect(list(obj.basisSites()) == list(p["bsites"]) and obj.rateConstant() == p["rate"], "basis sites or rate constant of a process differ",
                   got=repr((obj.basisSites(), obj.rateConstant())))
        lc = obj.localConfigurations()
        rel = [[c2 - c1 for c1, c2 in zip(p["coords"][0], c)] for c in p["coords"]]

        def listing(coords, *labels):
            return sorted((tuple(round(float(x), 6) + 0.0 for x in c),) + tuple(repr(l) for l in ls) for c, *ls in zip(coords, *labels))
        if spec["mode"] == "plain":
            got = listing(lc[0].coordinates(), [str(x) for x in obj.elementsBefore()], [str(x) for x in obj.elementsAfter()])
            want = listing(rel, p["before"], p["after"])
            # what the two local configurations hold
            t0 = [[(n, str(t)) for n, t in x] for x in lc[0].types()]
            t1 = [[(n, str(t)) for n, t in x] for x in lc[1].types()]
            ctx.expect(listing(lc[0].coordinates(), t0, t1) == listing(rel, [[(1, t)] for t in p["before"]], [[(1, t)] for t in p["after"]]),
                       "the local configurations of a process differ from what was given", got=repr((lc[0].types(), lc[1].types())))
        else:
            got = listing(lc[0].coordinates(), [sorted((t, n) for n, t in x) for x in lc[0].types()])
            want = listing(rel, [sorted((t, n) for n, t in m) for m in p["match"]])
        ctx.expect(got == want, "a process holds something else than was given", got=got, given=want)
        if spec["mode"] == "plain" and p.get("moves"):
            co = lc[0].coordinates()
            mg = sorted((tuple(numpy.round(numpy.array(co[i]), 6) + 0.0), tuple(numpy.round(numpy.array(v, dtype=float), 6) + 0.0)) for i, v in obj.moveVectors())
            mw = sorted((tuple(numpy.round(numpy.array(rel[i]), 6) + 0.0), tuple(numpy.round(numpy.array(v, dtype=float), 6) + 0.0)) for i, v in p["moves"])
            ctx.expect(len(mg) == len(mw) and all(numpy.allclose(x, y, atol=2e-6) for x, y in zip(mg, mw)), "move vectors differ", got=mg, given=mw)
        ctx.expect(set(obj.allPresentTypes()) == (set(p["before"] + p["after"]) if spec["mode"] == "plain" else
                                                  set(t for m in p["match"] + p["update"] for n, t in m)), "present types of a process differ", got=obj.allPresentTypes())
    ctx.expect(fresh.interactions.implicitWildcards() is spec["implicit"], "implicit wildcards flag differs")
    # possible types left out
    if rng.random() < 0.3:
        a3 = arguments(spec, rng)
        del a3["configuration"]["possible_types"]
        conf = construct(dict(a3, processes=[], model={}, interactions={"processes": b0.processes})).configuration
        ctx.expect(sorted(conf.possibleTypes()) == sorted(["*"] + list(count)) or any(0 in [n for n, t in s] for s in spec["types"] if isinstance(s, list)),
                   "possible types are not those present", got=repr(conf.possibleTypes()))
        ctx.expect(drive.contents(conf, spec["mode"] == "bucket") == wanted, "types change when the possible types are left out")
        ctx.count("possible_types_left_out")


def control(ctx, case):
    """Control parameters are what was asked for."""
    rng = random.Random("c16c-%s" % case["seed"])
    for _ in range(40):
        kw = {}
        for k in ("number_of_steps", "analysis_interval", "seed"):
            if rng.random() < 0.7:
                kw[k] = rng.choice([1, 2, 7, 1000, 2 ** 31 - 1])
        timed = rng.random()
        if timed < 0.3:
            kw["dump_time_interval"] = rng.choice([1e-9, 0.5, 1.0, 1e12])
        elif timed < 0.7:
            kw["dump_interval"] = rng.choice([1, 3, 50])
        if rng.random() < 0.7:
            kw["rng_type"] = rng.choice(["MT", "MINSTD", "RANLUX24", "RANLUX48"])
        c = KMCLib.KMCControlParameters(**kw)
        from KMCLib.Backend import Backend
        want = (kw.get("number_of_steps", 0), kw.get("dump_interval", None if "dump_time_interval" in kw else 1), kw.get("dump_time_interval"),
                kw.get("analysis_interval", 1), "seed" not in kw, getattr(Backend, kw.get("rng_type", "MT")))
        got = (c.numberOfSteps(), c.dumpInterval(), c.dumpTimeInterval(), c.analysisInterval(), c.timeSeed(), c.rngType())
        ctx.expect(got == want, "control parameters differ from what was asked for", asked=repr(kw), got=repr(got))
        if "seed" in kw:
            ctx.expect(c.seed() == kw["seed"], "another seed is stored", asked=kw["seed"], got=c.seed())
        ctx.count("control_parameters")


# -- anything at all ---------------------------------------------------------------------------------
def soup(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < 0.4:
        return pick(rng, [list, tuple])(soup(rng, depth + 1) for _ in range(rng.randrange(4)))
    return pick(rng, [None, True, False, 0, 1, -1, 2, 5, 0.0, 1.0, -1.0, 0.5, NAN, INF, -INF, 1e308, 5e-324, "A", "B", "*", "", "V", b"A", 2j, object(),
                      numpy.float64(1.0), numpy.int64(2), numpy.zeros(3), numpy.eye(3), numpy.array([[0.0, 0.0, 0.0]]), {}, {"A": 1}, lambda *x: 1.0, int, 2 ** 40, 10 ** 30])


def anything(ctx, case):
    """Whatever is given: an exception or an object that works, never a dead interpreter."""
    rng = random.Random("c16a-%s" % case["seed"])
    for _ in range(12):
        spec = gen.model(rng, max_sites=60, **case.get("opts", {}))
        a = arguments(spec, rng)
        part = pick(rng, ["unit_cell", "lattice", "configuration", "process", "process", "interactions", "control", "run", "calculator"])
        target = pick(rng, a["processes"]) if part == "process" else a[part]
        if part == "calculator":
            a["calculator"] = soup(rng)
        elif part == "run":
            target[pick(rng, ["control_parameters", "trajectory_filename", "trajectory_type", "analysis", "breakers"])] = soup(rng)
            if isinstance(target.get("trajectory_filename"), str):
                target["trajectory_filename"] = "soup.out"
        else:
            key = pick(rng, sorted(target))
            if isinstance(target[key], list) and target[key] and rng.random() < 0.7:
                i = rng.randrange(len(target[key]))
                if isinstance(target[key][i], list) and target[key][i] and rng.random() < 0.6:
                    target[key][i][rng.randrange(len(target[key][i]))] = soup(rng)
                else:
                    target[key][i] = soup(rng)
            else:
                target[key] = soup(rng)
            if key == "number_of_steps":
                target[key] = pick(rng, ["A", None, 1.0, True, []])
            if key == "repetitions" and isinstance(target[key], (list, tuple)) and any(isinstance(x, int) and x > 10 for x in target[key]):
                continue
            if part == "configuration" and key == "types" and str(2 ** 40) in repr(target[key]):
                continue    # that many particles do not fit into any memory
        ctx.count("anything")
        try:
            b = construct(a)
            # large but legal requests are not this check's business
            if len(b.lattice.sites()) > 500:
                continue
            seen = use(b, a)
        except Exception as e:
            ctx.count("anything_rejected")
            ctx.seen("anything", part, type(e).__name__, str(e)[:60])
            continue
        ctx.count("anything_accepted")
        # what was accepted is consistent
        t = drive.contents(b.configuration, not isinstance(b.configuration.types()[0], str))
        ctx.expect(len(t) == len(b.lattice.sites()), "an accepted configuration has another number of types than sites", arguments=repr(a)[:2000])
        ok = set(b.configuration.possibleTypes()) - set(["*"])
        ctx.expect(all(set(x if isinstance(x, dict) else [x]) <= ok for x in t), "an accepted configuration holds types that are not possible", arguments=repr(a)[:2000])
        times = [x[1] for x in seen]
        ctx.expect(times == sorted(times) and all(x == x for x in times), "an accepted model has no sensible time", times=times)


def cases(tier, seed, variant):
    q = tier == "quick"
    n = 6000 if q else 60000
    for i in range(n):
        opts = {"mode": ["plain", "plain", "bucket"][i % 3], "open_ok": True}
        if i % 2 == 0:
            opts["max_sites"] = 40
        yield {"kind": "reject", "seed": "%d-c16r-%d" % (seed, i), "part": PARTS[(i // 3) % len(PARTS)], "opts": opts, "again": i % 10 == 0}
    for i in range(1500 if q else 15000):
        yield {"kind": "forms", "seed": "%d-c16f-%d" % (seed, i), "opts": {"mode": ["plain", "bucket", "plain"][i % 3]}}
    for i in range(4 if q else 40):
        yield {"kind": "control", "seed": "%d-c16c-%d" % (seed, i)}
    for i in range(900 if q else 9000):
        yield {"kind": "anything", "seed": "%d-c16a-%d" % (seed, i), "opts": {"mode": ["plain", "bucket"][i % 2]}}


def run_case(ctx, case):
    {"reject": reject, "forms": forms, "control": control, "anything": anything}[case["kind"]](ctx, case)
