"""C17: rewritings of a model that mean the same give the same dynamics.

Every case takes a random model A and writes the same model in another way, B.
 - along a run of A, B is built from the (translated) contents of every few states: the available sites of every process
   and the summed rates must be those of A after translation;
 - where the rewriting leaves the order of sites and processes alone, B is also run with the same seed, and
   the two runs must agree event by event.
"""
import copy
import random

from kmcv import calc, drive, gen, geom, trace
from kmcv.worker import Skip

# rewriting: (options of the generator, may custom rates be used, compared event by event)
KINDS = {
    "reorder": ({}, True, True),
    "offset": ({}, True, True),
    "explicit": ({"implicit": True, "open_ok": False}, True, False),
    "partial": ({"implicit": True, "open_ok": False}, True, False),
    "permute_types": ({}, True, True),
    "extra_types": ({}, True, True),
    "rename": ({}, True, True),
    "scale": ({}, True, True),
    "shift": ({}, True, False),
    "axes": ({"open_ok": False}, False, False),
    "bigger_cell": ({"open_ok": False, "implicit": True}, False, False),
    "origin": ({}, True, False),
    "cell_vectors": ({}, True, True),
    "reorder_processes": ({}, True, False),
    "split": ({}, False, False),
    "merge_basis": ({}, False, False),
    "calculator": ({"calc": True, "open_ok": False}, True, False),
}
QUICK, THOROUGH = 170, 2400


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        for k in sorted(KINDS):
            opts = dict(KINDS[k][0])
            if KINDS[k][1] and i % 3 == 1:
                opts["calc"] = True
            if i % 4 == 2:
                opts["mode"] = "bucket"
            if k not in ("explicit", "partial", "bigger_cell") and i % 7 == 3:
                opts["implicit"] = False
            if i % 11 == 5:
                opts["shells"] = 2
            yield {"kind": k, "seed": "%d-c17-%s-%d" % (seed, k, i), "opts": opts, "steps": 120 if i % 25 == 0 else 30}


class Map(object):
    """Translation from A to B."""

    def __init__(self, spec):
        n = geom.Lattice(spec).n
        self.sites = list(range(n))            # site of A -> site of B
        self.types = None                      # type of A -> type of B
        self.procs = [[i] for i in range(len(spec["procs"]))]   # process of A -> processes of B
        self.rate = 1.0                        # rates of B / rates of A
        self.pos = lambda r: list(r)           # displacement of A -> displacement of B

    def type(self, t):
        return t if self.types is None else self.types[t]

    def content(self, content, bucket):
        out = [None] * len(self.sites)
        for s, c in enumerate(content):
            out[self.sites[s]] = dict((self.type(t), n) for t, n in c.items()) if bucket else self.type(c)
        return out


def entries(p):
    return [k for k in ("coords", "before", "after", "match", "update") if k in p]


def permute_entries(p, order):
    for k in entries(p):
        p[k] = [p[k][o] for o in order]
    if p.get("moves"):
        inv = {o: i for i, o in enumerate(order)}
        p["moves"] = [[inv[i], v] for i, v in p["moves"]]


def set_contents(spec, content):
    spec["types"] = list(content) if spec["mode"] == "plain" else [sorted([n, t] for t, n in c.items() if n) for c in content]


def initial(spec):
    if spec["mode"] == "plain":
        return list(spec["types"])
    out = []
    for s in spec["types"]:
        d = {}
        for n, t in s:
            d[t] = d.get(t, 0) + n
        out.append(d)
    return out


def surrounding(rng, lat, spec, p, full):
    """Name all positions up to the farthest one, with wildcards for those that were left out (some of them if not full)."""
    b = p["bsites"][0]
    c0 = p["coords"][0]
    rels = [tuple(c[d] - c0[d] for d in range(3)) for c in p["coords"]]
    far = max(geom.norm(r) for r in rels)
    have = set(lat.locate(b, r) for r in rels)
    if None in have:
        raise Skip()
    shells = 3
    new = []
    for di in range(-shells, shells + 1):
        for dj in range(-shells, shells + 1):
            for dk in range(-shells, shells + 1):
                for b2 in range(lat.nb):
                    o = (di, dj, dk, b2)
                    if any(lat.reps[d] == 1 and o[d] for d in range(3)):
                        continue
                    r = lat.rel(b, o)
                    if o in have or geom.norm(lat.wrap(r)) > far + 1e-5:
                        continue
                    if any(lat.per[d] and abs(r[d]) > lat.reps[d] / 2.0 - 1e-4 for d in range(3)):
                        raise Skip()
                    new.append(r)
    rng.shuffle(new)
    if not full:
        new = new[:rng.randint(0, len(new))]
    for r in new:
        p["coords"].append([c0[d] + r[d] for d in range(3)])
        if spec["mode"] == "plain":
            p["before"].append("*")
            p["after"].append("*")
        else:
            p["match"].append([[1, "*"]])
            p["update"].append([])
    order = list(range(1, len(p["coords"])))
    rng.shuffle(order)
    permute_entries(p, [0] + order)
    return len(new)


def rewrite(ctx, rng, kind, a):
    """(B, translation)"""
    b = copy.deepcopy(a)
    m = Map(a)
    lat = geom.Lattice(a)
    if kind == "reorder":
        for p in b["procs"]:
            order = list(range(1, len(p["coords"])))
            rng.shuffle(order)
            permute_entries(p, [0] + order)
            if p.get("moves"):
                rng.shuffle(p["moves"])
            if a["mode"] == "bucket":
                for l in p["match"] + p["update"]:
                    rng.shuffle(l)
    elif kind == "offset":
        for p in b["procs"]:
            v = [rng.choice([0.0, 0.25, 1.0, -2.0, 16.5]) for _ in range(3)]
            p["coords"] = [[c[d] + v[d] for d in range(3)] for c in p["coords"]]
    elif kind in ("explicit", "partial"):
        # wildcards are left out only for processes at one basis position
        b["implicit"] = kind == "partial"
        for p in b["procs"]:
            if len(p["bsites"]) == 1:
                ctx.count("wildcards_named", surrounding(rng, lat, a, p, kind == "explicit"))
    elif kind == "permute_types":
        rng.shuffle(b["ptypes"])
    elif kind == "extra_types":
        for i in range(rng.choice([1, 2, 9, 33, 70, 300])):
            b["ptypes"].insert(rng.randrange(len(b["ptypes"]) + 1), "extra%d" % i)
    elif kind == "rename":
        names = [chr(97 + i) * rng.randint(1, 3) for i in range(len(a["ptypes"]))]
        if rng.random() < 0.3:
            names = [rng.choice(["%s'", "\"%s", "a b %s", "%s\\", "#%s", "\u00e5%s"]) % n for n in names]
        rng.shuffle(names)
        if rng.random() < 0.4:
            names = list(a["ptypes"])
            rng.shuffle(names)
        m.types = dict(zip(a["ptypes"], names))
        f = lambda t: t if t == "*" else m.types[t]
        b["ptypes"] = [f(t) for t in a["ptypes"]]
        for p in b["procs"]:
            for k in ("before", "after"):
                if k in p:
                    p[k] = [f(t) for t in p[k]]
            for k in ("match", "update"):
                if k in p:
                    p[k] = [[[n, f(t)] for n, t in l] for l in p[k]]
    elif kind == "scale":
        m.rate = rng.choice([2.0 ** rng.randint(-60, 60), 10.0 ** rng.uniform(-9, 9)])
        for p in b["procs"]:
            p["rate"] = p["rate"] * m.rate
    elif kind == "shift":
        v = [rng.randrange(lat.reps[d]) if lat.per[d] else 0 for d in range(3)]
        m.sites = [lat.index(*([(lat.cell(s)[d] + v[d]) % lat.reps[d] for d in range(3)] + [lat.cell(s)[3]])) for s in range(lat.n)]
    elif kind == "axes":
        perm = rng.choice([(1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)])
        f = lambda v: [v[perm[d]] for d in range(3)]
        b["reps"], b["periodic"], b["basis"] = f(a["reps"]), f(a["periodic"]), [f(x) for x in a["basis"]]
        m.pos = f
        for p in b["procs"]:
            p["coords"] = [f(c) for c in p["coords"]]
            if p.get("moves"):
                p["moves"] = [[i, f(v)] for i, v in p["moves"]]
        lb = geom.Lattice(b)
        m.sites = [lb.index(*(f(lat.cell(s)[:3]) + [lat.cell(s)[3]])) for s in range(lat.n)]
    elif kind == "bigger_cell":
        ax = [d for d in range(3) if lat.reps[d] % 2 == 0 and lat.reps[d] >= 6]
        if not ax:
            # make one direction long enough
            long = [d for d in range(3) if lat.reps[d] > 2]
            if not long:
                raise Skip()
            d = rng.choice(long)
            a["reps"][d] = b["reps"][d] = 2 * lat.reps[d]
            base = a["types"]
            lat = geom.Lattice(a)
            a["types"] = [copy.deepcopy(base[rng.randrange(len(base))]) for _ in range(lat.n)]
            b["types"] = copy.deepcopy(a["types"])
            ax = [d]
            if lat.n > 400:
                raise Skip()
        d = rng.choice(ax)
        half = lambda v: [x / 2.0 if e == d else x for e, x in enumerate(v)]
        b["reps"] = [r // 2 if e == d else r for e, r in enumerate(a["reps"])]
        b["basis"] = [half(x) for x in a["basis"]] + [[x + (0.5 if e == d else 0.0) for e, x in enumerate(half(v))] for v in a["basis"]]
        m.pos = half
        new, m.procs = [], []
        for p in a["procs"]:
            bs = [x for x in p["bsites"] if x < lat.nb]
            if len(p["coords"]) > 1 and len(bs) > 1:
                raise Skip()
            m.procs.append([])
            groups = [[x, x + lat.nb] for x in bs]
            if len(p["coords"]) > 1 or rng.random() < 0.5:
                groups = [[x] for g in groups for x in g]
            for g in groups:
                q = copy.deepcopy(p)
                q["coords"] = [half(c) for c in p["coords"]]
                q["bsites"] = g
                if q.get("moves"):
                    q["moves"] = [[i, half(v)] for i, v in q["moves"]]
                m.procs[-1].append(len(new))
                new.append(q)
        b["procs"] = new
        lb = geom.Lattice(b)
        m.sites = []
        for s in range(lat.n):
            c = list(lat.cell(s))
            k = c[3] + (lat.nb if c[d] % 2 else 0)
            c[d] //= 2
            m.sites.append(lb.index(c[0], c[1], c[2], k))
    elif kind == "origin":
        lo = [min(x[d] for x in a["basis"]) for d in range(3)]
        hi = [max(x[d] for x in a["basis"]) for d in range(3)]
        v = [rng.uniform(-lo[d], 0.999 - hi[d]) for d in range(3)]
        b["basis"] = [[min(max(x[d] + v[d], 0.0), 0.9999) for d in range(3)] for x in a["basis"]]
    elif kind == "cell_vectors":
        b["cell"] = [[x * rng.choice([1.0, 2.0, 0.3]) for x in v] for v in rng.choice(gen.CELLS)]
    elif kind == "reorder_processes":
        order = list(range(len(a["procs"])))
        rng.shuffle(order)
        b["procs"] = [a["procs"][o] for o in order]
        m.procs = [[order.index(i)] for i in range(len(order))]
    elif kind == "split":
        # one process of rate k as two of rates summing up to k
        b["procs"], m.procs = [], []
        for p in a["procs"]:
            n = rng.choice([1, 2, 3])
            w = [rng.random() for _ in range(n)]
            m.procs.append([])
            for x in w:
                q = copy.deepcopy(p)
                q["rate"] = p["rate"] * x / sum(w)
                m.procs[-1].append(len(b["procs"]))
                b["procs"].append(q)
    elif kind == "merge_basis":
        # a process without surroundings at several basis positions, or one process for each of them
        b["procs"], m.procs = [], []
        for p in a["procs"]:
            m.procs.append([])
            groups = [p["bsites"]] if len(p["coords"]) > 1 else [[x] for x in p["bsites"]]
            for g in groups:
                q = copy.deepcopy(p)
                q["bsites"] = list(g)
                m.procs[-1].append(len(b["procs"]))
                b["procs"].append(q)
    elif kind == "calculator":
        b["calc"] = None
    else:
        raise ValueError(kind)
    set_contents(b, m.content(initial(a), a["mode"] == "bucket"))
    return b, m


def totals(model):
    return [float(p.totalRate()) for p in model._backend().interactions().processes()]


def close(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-300


def compare(ctx, kind, m, a_sites, a_tot, a_scale, b_model, what):
    """Available sites and rates of B against those of A."""
    bs, bt = drive.sites_of(b_model), totals(b_model)
    ctx.count("states_compared")
    for i, targets in enumerate(m.procs):
        want = sorted(m.sites[s] for s in a_sites[i])
        if kind in ("bigger_cell", "merge_basis"):
            got = sorted(s for j in targets for s in bs[j])
            ok = got == want
        else:
            got = [sorted(bs[j]) for j in targets]
            ok = all(g == want for g in got)
        ctx.count("pairs_compared", len(want))
        if not ctx.expect(ok, "%s: process %d has other available sites when the same model is written differently (%s)" % (kind, i, what),
                          want=want[:50], got=repr(got)[:500]):
            return False
        r = sum(bt[j] for j in targets)
        # sums that went through many additions and removals carry the rounding of their largest value
        tol = 1e-9 * max(abs(r), a_scale[i] * m.rate) + 1e-300
        if not ctx.expect(abs(r - a_tot[i] * m.rate) <= tol,
                          "%s: process %d has another summed rate when the same model is written differently (%s): %r, %r" % (kind, i, what, a_tot[i] * m.rate, r)):
            return False
    return True


def run_case(ctx, case):
    kind = case["kind"]
    rng = random.Random("c17-%s" % case["seed"])
    a = trace.spec_for(case)
    if a["calc"]:
        # cached rates belong to the calculators of C05, which see nothing but the contents
        a["calc"]["cache"] = False
        if kind == "calculator":
            a["calc"]["func"] = "const"
        if kind == "rename" and a["calc"]["func"] == "hash":
            a["calc"]["func"] = "count"
        if kind == "reorder_processes":
            a["calc"]["func"] = "after"
            a["calc"]["exclude"] = []
        if kind == "scale":
            a["calc"]["func"] = rng.choice(["count", "after", "hash"])
    if kind in ("bigger_cell", "merge_basis", "split", "axes") and a["calc"]:
        a["calc"] = None
    b, m = rewrite(ctx, rng, kind, a)
    bucket = a["mode"] == "bucket"
    model_a = trace.build(a)
    exact = KINDS[kind][2]
    log = []
    state = {"n": 0, "ok": True, "scale": [0.0] * len(a["procs"])}

    def look(step, time, conf):
        content = drive.contents(conf, bucket)
        sites, tot = drive.sites_of(model_a), totals(model_a)
        state["scale"] = [max(x, y) for x, y in zip(state["scale"], tot)]
        log.append((time, content, [sorted(x) for x in sites], int(conf.latestEventProcess()), int(conf.latestEventSite()),
                    list(conf._backend().atomID()), list(conf.movedAtomIDs()),
                    [[c.x(), c.y(), c.z()] for c in conf._backend().recentMoveVectors()], float(model_a._backend().interactions().totalRate())))
        if state["ok"] and (state["n"] % 5 == 0 or state["n"] < 3):
            s = dict(b)
            set_contents(s, m.content(content, bucket))
            state["ok"] = compare(ctx, kind, m, sites, tot, state["scale"], trace.build(s), "after %d steps" % state["n"])
        state["n"] += 1

    drive.run(model_a, a, case["steps"], look)
    ctx.count("rewriting_" + kind)
    if not log:
        # nothing can happen at all; so it must be in the other form
        ctx.count("no_events")
        model_b = trace.build(b)
        compare(ctx, kind, m, drive.sites_of(model_a), totals(model_a), [0.0] * len(a["procs"]), model_b, "no events")
        return
    ctx.seen(kind, len(log), hash(str(log[-1][1])))
    model_b = trace.build(b)
    # B on its own
    log_b = []

    def look_b(step, time, conf):
        content = drive.contents(conf, bucket)
        log_b.append((time, content, [sorted(x) for x in drive.sites_of(model_b)], int(conf.latestEventProcess()), int(conf.latestEventSite()),
                      list(conf._backend().atomID()), list(conf.movedAtomIDs()),
                      [[c.x(), c.y(), c.z()] for c in conf._backend().recentMoveVectors()], float(model_b._backend().interactions().totalRate())))

    drive.run(model_b, b, case["steps"], look_b)
    if exact:
        ctx.count("runs_compared")
        if not ctx.expect(len(log) == len(log_b), "%s: the runs have %d and %d steps" % (kind, len(log), len(log_b))):
            return
        for n, (x, y) in enumerate(zip(log, log_b)):
            ctx.count("events_compared")
            ok = ctx.expect(close(x[0], y[0] * m.rate), "%s: times differ after %d steps: %r, %r" % (kind, n, x[0], y[0] * m.rate))
            ok = ok and ctx.expect(m.content(x[1], bucket) == y[1], "%s: configurations differ after %d steps" % (kind, n), a=x[1], b=y[1])
            ok = ok and ctx.expect(x[2:6] == y[2:6], "%s: available sites, latest event or particle identities differ after %d steps" % (kind, n), a=repr(x[2:6])[:1500], b=repr(y[2:6])[:1500])
            mv_a = sorted((i, [round(c, 5) + 0.0 for c in v]) for i, v in zip(x[6], x[7]))
            mv_b = sorted((i, [round(c, 5) + 0.0 for c in v]) for i, v in zip(y[6], y[7]))
            ok = ok and ctx.expect(len(mv_a) == len(mv_b) and all(i == j and max(abs(p - q) for p, q in zip(v, w)) < 3e-5 for (i, v), (j, w) in zip(mv_a, mv_b)),
                                   "%s: other moves are reported after %d steps" % (kind, n), a=mv_a, b=mv_b)
            if not ok:
                return
    else:
        # the start of both runs is the same state: the first time step leaves it with the same total rate and draw
        if len(log) > 1 and len(log_b) > 1 and a["rng"] == b["rng"]:
            ctx.expect(close(log[1][0] - log[0][0], (log_b[1][0] - log_b[0][0]) * m.rate), "%s: the first time steps differ: %r, %r" % (
                kind, log[1][0] - log[0][0], log_b[1][0] - log_b[0][0]))
        # what B reached is judged by A
        back = [0] * len(m.sites)
        for s, t in enumerate(m.sites):
            back[t] = s
        ts = None if m.types is None else dict((v, k) for k, v in m.types.items())
        for x in log_b[1::7]:
            c = [x[1][m.sites[s]] for s in range(len(back))]
            if ts is not None:
                c = [dict((ts[t], n) for t, n in y.items()) if bucket else ts[y] for y in c]
            s = dict(a)
            set_contents(s, c)
            fresh = trace.build(s)
            ctx.count("states_compared_back")
            got = drive.sites_of(fresh)
            for i, targets in enumerate(m.procs):
                want = sorted(m.sites[y] for y in got[i])
                lists = [x[2][j] for j in targets]
                have = [sorted(y for l in lists for y in l)] if kind in ("bigger_cell", "merge_basis") else lists
                if not ctx.expect(all(h == want for h in have), "%s: process %d has other available sites when the same model is written differently (run of the rewritten model)" % (kind, i),
                                  want=want[:50], got=repr(have)[:500]):
                    return
    ctx.sample({"kind": kind, "steps": len(log), "mode": a["mode"], "procs": len(a["procs"])})
