"""C06: every particle keeps its identity, type and true (unwrapped) coordinate through moves."""
import collections
import random

from kmcv import trace

QUICK, THOROUGH = 700, 9000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"mode": "plain", "moves_only": i % 4 != 3}
        if i % 5 == 1:
            opts["calc"] = True
        if i % 3 == 0:
            opts["open_ok"] = False
        if i % 9 == 4:
            opts["shells"] = 2
        if i % 13 == 5:
            opts["implicit"] = False
        yield {"kind": "walk", "seed": "%d-c06-%d" % (seed, i), "opts": opts,
               "steps": 1500 if i % 40 == 0 else (200 if i % 4 == 0 else 60), "again": i % 6 == 0}
    # the same, with gaps between observations: the library's bookkeeping must not depend on being asked
    for i in range(n // 20):
        yield {"kind": "gaps", "seed": "%d-c06g-%d" % (seed, i), "opts": {"mode": "plain", "moves_only": True},
               "steps": 150, "every": 7}


def near(a, b, tol):
    return max(abs(x - y) for x, y in zip(a, b)) <= tol


class Particles(object):
    """The reference bookkeeping: where each particle is, what it is and how far it has come."""

    def __init__(self, ctx, w, conf, content):
        self.ctx, self.w = ctx, w
        self.lat = w.ref.lat
        n = self.lat.n
        self.ids = list(range(n))
        self.types = list(content)
        self.coords = [list(self.lat.coord(s)) for s in range(n)]
        self.start = [tuple(c) for c in self.coords]
        self.nmoves = [0] * n
        self.winding = [set() for _ in range(n)]
        self.compare(conf, content, "at the start")

    def compare(self, conf, content, when):
        ctx = self.ctx
        got = [int(x) for x in conf._backend().atomID()]
        if got != self.ids:
            bad = [(i, a, b) for i, (a, b) in enumerate(zip(self.ids, got)) if a != b][:4]
            ctx.violation("%s: particle ids at sites (site, expected, found) %s%s" % (
                when, bad, "" if sorted(got) == list(range(self.lat.n)) else "; ids lost or doubled"), spec=self.w.spec)
            return False
        types = list(conf.atomIDTypes())
        if types != self.types:
            bad = [(i, a, b) for i, (a, b) in enumerate(zip(self.types, types)) if a != b][:4]
            ctx.violation("%s: types of particles (id, expected, found) %s" % (when, bad), spec=self.w.spec)
            return False
        co = conf.atomIDCoordinates()
        for i in range(self.lat.n):
            if not near(co[i], self.coords[i], 1e-9 * (10 + self.nmoves[i])):
                ctx.violation("%s: particle %d is reported at %s instead of %s" % (
                    when, i, [float(x) for x in co[i]], self.coords[i]), spec=self.w.spec)
                return False
        for s in range(self.lat.n):
            i = self.ids[s]
            if types[i] != content[s]:
                ctx.violation("%s: site %d holds %s but particle %d there is %s" % (when, s, content[s], i, types[i]),
                              spec=self.w.spec)
                return False
            c, d = self.lat.coord(s), co[i]
            for x in range(3):
                r = (float(d[x]) - c[x]) / self.lat.reps[x]
                k = round(r)
                if abs(r - k) * self.lat.reps[x] > 1e-5 * (2 + self.nmoves[i]) or (k and not self.lat.per[x]):
                    ctx.violation("%s: the coordinate %s of particle %d does not belong to its site %d at %s" % (
                        when, [float(y) for y in d], i, s, c), spec=self.w.spec)
                    return False
                if k:
                    self.winding[i].add((x, k))
        ctx.count("particles_compared", self.lat.n)
        return True

    def event(self, pn, s, content):
        """Perform an event; returns the moves (id, vector) and the sites whose type changed."""
        p = self.w.ref.procs[pn]
        at = p.sites_at(s)
        moves = []
        for i, v in p.moves:
            moves.append((self.ids[at[i]], at[p.dest[i]], v))
        changed = [s2 for s2 in range(self.lat.n) if content[s2] != self.old[s2]]
        moved_to = set()
        for pid, t, v in moves:
            self.ids[t] = pid
            moved_to.add(t)
            for x in range(3):
                self.coords[pid][x] += v[x]
            self.nmoves[pid] += 1
        for s2 in changed:
            if s2 not in moved_to:
                self.types[self.ids[s2]] = content[s2]
        return [(pid, tuple(v)) for pid, t, v in moves], changed


def monitor(ctx, w, st):
    if "ref" not in st:
        st["ref"] = Particles(ctx, w, w.conf, w.content)
        st["ref"].old = list(w.content)
        return
    r = st["ref"]
    if st.get("bad"):
        return
    if w.first:
        if not r.compare(w.conf, w.content, "at the start of another run"):
            st["bad"] = True
        return
    before_ids = list(r.ids)
    moves, changed = r.event(w.pn, w.site, w.content)
    r.old = list(w.content)
    when = "after step %s (process %d at site %d)" % (w.step, w.pn, w.site)
    if not r.compare(w.conf, w.content, when):
        st["bad"] = True
        return
    ctx.count("events")
    if moves:
        ctx.count("events_with_moves")
        ctx.count("moves", len(moves))
        ctx.seen(len(moves), hash(str(w.spec["procs"][w.pn])), w.site)
    # what is reported about the latest event
    ids = [int(x) for x in w.conf.movedAtomIDs()]
    vs = [tuple(float(v[d]) for d in range(3)) for v in w.conf._backend().recentMoveVectors()]
    if len(ids) != len(vs):
        ctx.violation("%s: %d moved ids but %d move vectors" % (when, len(ids), len(vs)))
        st["bad"] = True
        return
    rest = list(moves)
    for i, v in zip(ids, vs):
        m = [x for x in rest if x[0] == i and near(x[1], v, 1e-9)]
        if m:
            rest.remove(m[0])
        elif max(map(abs, v)) > 1e-9 or before_ids.index(i) not in changed:
            ctx.violation("%s: particle %d is reported to have moved by %s; the moves are %s" % (when, i, v, moves), spec=w.spec)
            st["bad"] = True
            return
    if rest:
        ctx.violation("%s: moves %s are not reported (reported: %s)" % (when, rest, list(zip(ids, vs))), spec=w.spec)
        st["bad"] = True


def run_case(ctx, case):
    spec = trace.spec_for(case)
    model = trace.build(spec)
    if case["kind"] == "gaps":
        return gaps(ctx, case, spec, model)
    w = trace.Walk(spec, model, sites=False)
    st = {}
    w.monitors.append(lambda w: monitor(ctx, w, st))
    r = w.run(case["steps"])
    if r is None and case.get("again"):
        w.run(40, seed=spec["seed"] // 5 + 3)
        ctx.count("second_runs")
    if "ref" in st:
        ctx.count("windings", sum(len(x) for x in st["ref"].winding))
    ctx.sample({"spec": spec, "steps": w.total})


def gaps(ctx, case, spec, model):
    """Observed every few steps only; the history comes from a twin that is observed at every step."""
    hist = []
    other = trace.build(spec)
    w = trace.Walk(spec, other, sites=False)
    st = {}
    snaps = {}

    def mon(w):
        monitor(ctx, w, st)
        if not st.get("bad"):
            r = st["ref"]
            snaps[w.step] = (list(r.ids), list(r.types), [tuple(c) for c in r.coords])
    w.monitors.append(mon)
    w.run(case["steps"])

    def look(step, time, conf):
        if step in snaps:
            ids, types, coords = snaps[step]
            got = [int(x) for x in conf._backend().atomID()]
            co = conf.atomIDCoordinates()
            ok = (got == ids and list(conf.atomIDTypes()) == types
                  and all(near(co[i], coords[i], 1e-6) for i in range(len(ids))))
            ctx.expect(ok, "looked at every %d steps, the particles at step %s differ from those of the run looked at after every step"
                       % (case["every"], step), spec=spec)
            ctx.count("gap_looks")
    from kmcv import drive
    drive.run(model, spec, case["steps"], look, analysis_interval=case["every"])
