"""C11: on-the-fly mean square displacements equal those computed from the recorded moves."""
import io
import math
import random

import KMCLib
from KMCLib import OnTheFlyMSD

from kmcv import drive, gen, trace
from kmcv.worker import Skip

QUICK, THOROUGH = 420, 6000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"mode": "plain", "moves_only": i % 5 != 4}
        if i % 7 == 3:
            opts["calc"] = True
        if i % 3 == 0:
            opts["open_ok"] = False
        yield {"kind": "exact" if i % 2 else "run", "seed": "%d-c11-%d" % (seed, i), "opts": opts,
               "steps": 900 if i % 20 == 0 else 220, "again": i % 8 == 2, "interval": [1, 1, 1, 2, 5][i % 5]}


class Recorder(object):
    """What the analysis was shown, in plain Python."""

    def __init__(self, spec, track, history, n_bins, t_max):
        self.cell = [[float(x) for x in v] for v in spec["cell"]]
        self.track, self.history, self.n_bins = track, history, n_bins
        self.binsize = t_max / n_bins
        self.doubt = False

    def setup(self, time, conf):
        co, ty = conf.atomIDCoordinates(), conf.atomIDTypes()
        self.hist = {i: [(tuple(map(float, co[i])), time)] for i in range(len(ty)) if ty[i] == self.track}
        self.sums = [[0.0, 0.0, 0.0] for _ in range(self.n_bins)]
        self.counts = [0] * self.n_bins
        self.lag_counts = [[0] * self.n_bins for _ in range(self.history - 1)]
        self.lag_total = [0] * self.history
        self.pairs = 0
        self.beyond = 0
        self.edge = 0
        self.others = 0
        self.together = 0

    def register(self, time, conf, exact):
        co, ty = conf.atomIDCoordinates(), conf.atomIDTypes()
        here = 0
        for i in [int(x) for x in conf.movedAtomIDs()]:
            if ty[i] != self.track:
                self.others += 1
                continue
            here += 1
            h = self.hist.setdefault(i, [])
            x = tuple(map(float, co[i]))
            h.insert(0, (x, time))
            del h[self.history:]
            for lag in range(1, len(h)):
                y, t = h[lag]
                self.lag_total[lag - 1] += 1
                q = (time - t) / self.binsize
                if abs(q - round(q)) < 1e-9 * max(1.0, abs(q)):
                    if exact:
                        self.edge += 1
                    elif q > 0.5:
                        self.doubt = True
                b = int(q)
                if b >= self.n_bins:
                    self.beyond += 1
                    continue
                d = [x[k] - y[k] for k in range(3)]
                xyz = [sum(d[k] * self.cell[k][c] for k in range(3)) for c in range(3)]
                for c in range(3):
                    self.sums[b][c] += xyz[c] * xyz[c]
                self.counts[b] += 1
                self.lag_counts[lag - 1][b] += 1
                self.pairs += 1
        if here > 1:
            self.together += 1

    def results(self):
        out = [[0.0] * self.n_bins for _ in range(7)]
        for b in range(self.n_bins):
            x, y, z = [v / max(self.counts[b], 1) for v in self.sums[b]]
            for r, v in enumerate((x, y, z, x + y, x + z, y + z, x + y + z)):
                out[r][b] = v
        return out

    def n_eff(self):
        return [sum((lag + 1.0) * c[b] for lag, c in enumerate(self.lag_counts)) / self.counts[b] if self.counts[b] else 0.0
                for b in range(self.n_bins)]

    def std(self, shift=0.0):
        """Error of a mean square displacement over n steps, estimated from K overlapping pairs.

        shift: n is a sum of fractions, and its rounding decides which K is used when it is integral."""
        out = []
        for n in self.n_eff():
            n += shift
            f = 0.0
            if n > 1e-12 and int(n + 1.0) < len(self.lag_total):
                k = float(self.lag_total[int(n + 1.0)])
                if k > 0:
                    if n <= k:
                        f = math.sqrt(2.0 * (4 * n * n * k + 2 * k + n - n ** 3) / (6 * n * k * k))
                    else:
                        f = math.sqrt(2.0 * (1.0 + (k ** 3 - 4 * n * k * k + 4 * n - k) / (6 * n * n * k)))
            out.append(f)
        dim = [1.0] * 3 + [math.sqrt(0.5)] * 3 + [math.sqrt(1.0 / 3.0)]
        r = self.results()
        return [[r[d][b] * out[b] * dim[d] for b in range(self.n_bins)] for d in range(7)]

    def cutoff(self):
        if not self.lag_counts:
            return self.n_bins
        last = self.lag_counts[-1]
        for b, c in enumerate(last):
            if c > 0.01 * max(last):
                return b
        return self.n_bins


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1e-12, abs(a), abs(b)) or abs(a - b) < 1e-13


def compare(ctx, msd, rec, spec, par):
    what = "tracking %(track)s, history %(history)d, %(n_bins)d bins up to %(t_max)g" % par
    counts = [int(x) for x in msd.binCounters()]
    if not ctx.expect(counts == rec.counts, "%s: counts per bin %s, recorded moves give %s" % (
            what, [(b, x, y) for b, (x, y) in enumerate(zip(counts, rec.counts)) if x != y][:5], "(bin, reported, recorded)"), spec=spec):
        return
    got, want = msd.results(), rec.results()
    bad = [(r, b, float(got[r][b]), want[r][b]) for r in range(7) for b in range(rec.n_bins) if not close(float(got[r][b]), want[r][b])]
    ctx.expect(got.shape == (7, rec.n_bins) and not bad, "%s: (column, bin, reported, recorded) %s" % (what, bad[:5]), spec=spec)
    ts = msd.timeSteps()
    ctx.expect(len(ts) == rec.n_bins and all(close(float(t), (b + 0.5) * rec.binsize) for b, t in enumerate(ts)), "%s: bin centres %s" % (what, ts[:4]))
    got, want, alt = msd.stdDev(), rec.std(1e-9), rec.std(-1e-9)
    bad = [(r, b, float(got[r][b]), want[r][b]) for r in range(7) for b in range(rec.n_bins)
           if not close(float(got[r][b]), want[r][b], 1e-6) and not close(float(got[r][b]), alt[r][b], 1e-6)]
    ctx.expect(not bad, "%s: error estimates (column, bin, reported, recorded) %s" % (what, bad[:5]), spec=spec)
    ctx.count("errors_compared", sum(1 for b in range(rec.n_bins) if want[6][b] > 0))
    cut = msd.safeCutoff()
    ctx.expect(cut == rec.cutoff(), "%s: safe cutoff %s, recorded moves give %s" % (what, cut, rec.cutoff()))
    out = io.StringIO()
    msd.printResults(out)
    lines = out.getvalue().split("\n")
    ctx.expect(lines[0].split()[:2] == ["TIME", "MSD_x"] and len(lines[0].split()) == 16 and lines[-1] == "", "%s: printed header %r" % (what, lines[0]))
    rows = [[float(x) for x in l.split()] for l in lines[1:-1]]
    res, ne = msd.results(), rec.n_eff()
    ctx.expect(len(rows) == rec.cutoff(), "%s: %d printed lines, safe cutoff %d" % (what, len(rows), rec.cutoff()))
    for b, row in enumerate(rows[:rec.cutoff()]):
        want_row = [(b + 0.5) * rec.binsize] + [float(res[r][b]) for r in range(7)] + [float(got[r][b]) for r in range(7)] + [ne[b]]
        if not ctx.expect(len(row) == 16 and all(abs(x - y) <= 2e-5 * abs(y) + 1e-30 for x, y in zip(row, want_row)),
                          "%s: printed line %d is %s instead of %s" % (what, b, row, want_row), spec=spec):
            break
    ctx.count("analyses")
    ctx.count("pairs", rec.pairs)
    ctx.count("beyond_last_bin", rec.beyond)
    ctx.count("on_a_bin_edge", rec.edge)
    ctx.count("moves_of_other_types", rec.others)
    ctx.count("moved_together", rec.together)
    ctx.count("bins_filled", sum(1 for c in rec.counts if c))
    ctx.seen(par["track"], par["history"], par["n_bins"], tuple(rec.counts))


def pick(rng, spec, scale, dyadic):
    n_bins = rng.choice([1, 2, 3, 8, 20, 64])
    if dyadic:
        size = 2.0 ** rng.randint(-2, 3)
        t_max = size * n_bins
    else:
        t_max = scale * 10.0 ** rng.uniform(-0.5, 2.3)
    types = sorted(set(spec["types"]))
    track = rng.choice(types) if rng.random() < 0.95 else rng.choice(spec["ptypes"])
    return {"track": track, "history": rng.choice([1, 2, 3, 4, 5, 9, 20]), "n_bins": n_bins, "t_max": t_max}


def run_case(ctx, case):
    spec = trace.spec_for(case)
    rng = random.Random("msd-" + case["seed"])
    model = trace.build(spec)
    times = []
    pilot = drive.run(trace.build(spec), spec, 60, lambda s, t, c: times.append(t))
    if len(times) < 3:
        raise Skip()
    scale = (times[-1] - times[0]) / (len(times) - 1) * case["interval"]
    pars = [pick(rng, spec, scale, case["kind"] == "exact") for _ in range(3)]
    if case["kind"] == "exact":
        return exact(ctx, case, spec, model, pars, rng)
    runs = []
    for par in pars:
        runs.append((par, OnTheFlyMSD(history_steps=par["history"], n_bins=par["n_bins"], t_max=par["t_max"], track_type=par["track"]),
                     Recorder(spec, **par)))
    for again in range(2 if case["again"] else 1):
        state = {"first": True}

        def look(step, time, conf):
            for par, msd, rec in runs:
                if state["first"]:
                    rec.setup(time, conf)
                else:
                    rec.register(time, conf, False)
            state["first"] = False
        r = drive.run(model, spec, case["steps"], look, analysis=[x[1] for x in runs], analysis_interval=case["interval"],
                      seed=spec["seed"] // (again + 1) + again)
        for par, msd, rec in runs:
            if not rec.doubt:
                compare(ctx, msd, rec, spec, par)
        if again:
            ctx.count("second_runs")
        if r == "dead":
            break
    ctx.sample({"spec": spec, "analyses": pars})


def exact(ctx, case, spec, model, pars, rng):
    """Events of the simulation with times that fall on bin edges."""
    script = {"t": rng.choice([0.0, 0.0, 5.0, 1024.5]), "n": 0}
    runs = [(par, OnTheFlyMSD(history_steps=par["history"], n_bins=par["n_bins"], t_max=par["t_max"], track_type=par["track"]),
             Recorder(spec, **par)) for par in pars]
    first = [True]

    def look(step, time, conf):
        if not first[0]:
            script["t"] += rng.choice([0.0, 0.25, 0.25, 0.5, 1.0, 3.0, 0.125, 40.0 if rng.random() < 0.1 else 0.25])
        for par, msd, rec in runs:
            if first[0]:
                rec.setup(script["t"], conf)
                msd.setup(step, script["t"], conf)
            else:
                rec.register(script["t"], conf, True)
                msd.registerStep(step, script["t"], conf)
        first[0] = False
    drive.run(model, spec, case["steps"], look, analysis_interval=case["interval"])
    for par, msd, rec in runs:
        msd.finalize()
        compare(ctx, msd, rec, spec, par)
