"""C12: the statistics collected during a run equal those recomputed from the full history."""
import collections
import io
import random

from KMCLib import Composition, ProcessStatistics, TimeStepDistribution

from kmcv import drive, geom, trace
from kmcv.worker import Skip

QUICK, THOROUGH = 500, 7000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {}
        if i % 7 == 3:
            opts["calc"] = True
        if i % 3 == 0:
            opts["open_ok"] = False
        yield {"kind": "exact" if i % 2 else "run", "seed": "%d-c12-%d" % (seed, i), "opts": opts,
               "steps": 1500 if i % 25 == 0 else (3 if i % 9 == 5 else 150), "interval": [1, 1, 1, 2, 5][i % 5],
               "again": i % 8 == 2}


class History(object):
    """Everything the analyses were shown, and the contents of the lattice at each look."""

    def __init__(self, spec):
        self.spec = spec
        self.bucket = spec["mode"] == "bucket"
        self.rows = []

    def look(self, time, conf, first):
        c = collections.Counter()
        for x in drive.contents(conf, self.bucket):
            if self.bucket:
                c.update({t: n for t, n in x.items() if t != "*"})
            else:
                c[x] += 1
        ev = None if first else (int(conf.latestEventProcess()), int(conf.latestEventSite()))
        self.rows.append((time, ev, dict(c)))


def blocks(times, interval, doubt):
    """A block ends with the last look before the first one more than an interval after the block's start."""
    last = times[0]
    out, cur = [], []
    for i in range(1, len(times)):
        q = (times[i] - last) / interval
        if doubt is not None and abs(q - 1.0) < 1e-9:
            doubt.append(1)
        if times[i] - last > interval:
            out.append(cur)
            cur = []
            last = times[i]
        cur.append(i)
    return out, cur


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def check_steps(ctx, h, an, binsize, scripted, before):
    """before: counts collected in earlier runs with the same object."""
    hist = collections.Counter(before)
    times = [r[0] for r in h.rows]
    for a, b in zip(times, times[1:]):
        q = (b - a) / binsize
        if not scripted and q > 0.5 and abs(q - round(q)) < 1e-9 * max(1.0, q):
            return None
        if scripted and q == int(q):
            ctx.count("steps_on_a_bin_edge")
        hist[int(q)] += 1
    got = {i: int(n) for i, n in enumerate(an.histogram()) if n}
    what = "time steps in bins of %g" % binsize
    if not ctx.expect(got == dict(hist), "%s: histogram (bin: reported, recorded) %s" % (
            what, {b: (got.get(b, 0), hist.get(b, 0)) for b in sorted(set(got) | set(hist)) if got.get(b, 0) != hist.get(b, 0)}), spec=h.spec):
        return None
    n = sum(hist.values())
    ctx.expect(sum(got.values()) == n, "%s: %d of %d steps counted" % (what, sum(got.values()), n))
    ts = [float(t) for t in an.timeSteps()]
    ctx.expect(len(ts) == len(an.histogram()) and all(close(t, (i + 0.5) * binsize) for i, t in enumerate(ts)), "%s: bin centres %s" % (what, ts[:4]))
    if n:
        norm = [float(x) for x in an.normalizedHistogram()]
        ctx.expect(all(close(norm[i], hist.get(i, 0) / float(n)) for i in range(len(norm))), "%s: the normalised histogram is not histogram / %d" % (what, n))
        out = io.StringIO()
        an.printResults(out)
        lines = out.getvalue().split("\n")
        ok = len(lines) == len(norm) + 1 and lines[-1] == ""
        for i, l in enumerate(lines[:-1]):
            f = l.split()
            ok = ok and len(f) == 3 and abs(float(f[0]) - ts[i]) <= 6e-6 and int(f[1]) == hist.get(i, 0) and abs(float(f[2]) - norm[i]) < 1e-14
        ctx.expect(ok, "%s: what is printed differs from what is reported: %s" % (what, lines[:4]))
    ctx.count("step_distributions")
    ctx.count("steps_counted", n)
    ctx.count("grown_histograms", len(an.histogram()) > 10)
    ctx.seen("dt", tuple(sorted(hist.items())))
    return hist


def check_events(ctx, h, an, procs, interval, spatial, scripted):
    doubt = None if scripted else []
    times = [r[0] for r in h.rows]
    done, cur = blocks(times, interval, doubt)
    what = "events of processes %s in intervals of %g" % (procs, interval)
    if doubt:
        return
    data = [sum(1 for i in b if h.rows[i][1][0] in procs) for b in done]
    out = io.StringIO()
    an.printResults(out)
    lines = out.getvalue().split("\n")
    rows = [l.split() for l in lines[1:-1]]
    want, tot = [], 0
    for i, n in enumerate(data):
        tot += n
        if i:
            want.append((i * interval, tot, n / interval, tot / (i * interval)))
    ok = len(rows) == len(want)
    for r, w in zip(rows, want):
        ok = ok and len(r) == 4 and int(r[1]) == w[1] and all(abs(float(r[k]) - w[k]) <= 6e-6 + 1e-12 * abs(w[k]) for k in (0, 2, 3))
    ctx.expect(ok, "%s: printed %s, recorded (time, n, dn/dt, n/t) %s" % (what, lines[1:5], want[:4]), spec=h.spec)
    if spatial:
        n = geom.Lattice(h.spec).n
        site = [0] * n
        for t, ev, c in h.rows[1:]:
            if ev[0] in procs:
                site[ev[1]] += 1
        el = times[-1] - times[0]
        got = [float(x) for x in an.spatialData()]
        want = [x / el if el > 0 else float(x) for x in site]
        ctx.expect(len(got) == n and all(close(a, b) for a, b in zip(got, want)),
                   "%s: events per site and time (site, reported, recorded) %s" % (
                       what, [(i, a, b) for i, (a, b) in enumerate(zip(got, want)) if not close(a, b)][:4]), spec=h.spec)
        ctx.count("events_per_site", sum(site))
    else:
        ctx.expect(an.spatialData() is None, "%s: spatial data although none were asked for" % what)
    ctx.count("process_statistics")
    ctx.count("blocks", len(data))
    ctx.count("events_counted", sum(data))
    ctx.count("runs_within_one_interval", not data)
    ctx.count("steps_longer_than_interval", sum(1 for a, b in zip(times, times[1:]) if b - a > interval))
    ctx.seen("ev", tuple(procs), tuple(data))


def check_composition(ctx, h, an, interval, scripted):
    doubt = None if scripted else []
    times = [r[0] for r in h.rows]
    done, cur = blocks(times, interval, doubt)
    if doubt:
        return
    if done:
        done[0] = [0] + done[0]
    what = "composition in intervals of %g" % interval
    out = io.StringIO()
    an.printResults(out)
    lines = out.getvalue().split("\n")
    names = lines[0].split()
    types = sorted(t for t in h.spec["ptypes"] if t != "*")
    if not ctx.expect(names[:1] == ["time"] and sorted(names[1:]) == types, "%s: the printed columns are %s for types %s" % (what, names, types)):
        return
    data = an.data()
    tt = [float(t) for t in an.times()]
    ctx.expect(len(data) == len(done) == len(tt) == len(lines) - 2, "%s: %d blocks reported, %d printed, %d times, %d recorded" % (
        what, len(data), len(lines) - 2, len(tt), len(done)), spec=h.spec)
    for i, (d, b) in enumerate(zip(data, done)):
        want = [sum(h.rows[k][2].get(t, 0) for k in b) / float(len(b)) for t in names[1:]]
        d = [float(x) for x in d]
        if not ctx.expect(len(d) == len(want) + 1 and all(close(x, y) for x, y in zip(d[1:], want)) and close(tt[i], (i + 0.5) * interval),
                          "%s: block %d at time %s is %s, recorded %s" % (what, i, tt[i], d[1:], want), spec=h.spec):
            break
        row = [float(x) for x in lines[1 + i].split()]
        if not ctx.expect(len(row) == len(d) and all(abs(x - y) <= 6e-4 * abs(y) for x, y in zip(row, [tt[i]] + d[1:])),
                          "%s: block %d is printed as %s" % (what, i, lines[1 + i])):
            break
        ctx.count("averages")
    ctx.count("compositions")
    ctx.seen("co", tuple(tuple(float(x) for x in d) for d in data))


def run_case(ctx, case):
    spec = trace.spec_for(case)
    rng = random.Random("stat-" + case["seed"])
    times = []
    drive.run(trace.build(spec), spec, 40, lambda s, t, c: times.append(t))
    if len(times) < 3:
        raise Skip()
    scale = (times[-1] - times[0]) / (len(times) - 1) * case["interval"]
    scripted = case["kind"] == "exact"
    np_ = len(spec["procs"])

    def size():
        return 2.0 ** rng.randint(-3, 3) if scripted else scale * 10.0 ** rng.uniform(-1.0, 1.5)
    made = []
    slowest = 1.0 / min([p["rate"] for p in spec["procs"] if p["rate"] > 0] or [1.0])
    for _ in range(2):
        # (a histogram reaches up to the longest step)
        made.append(("dt", TimeStepDistribution, {"binsize": size() if scripted else max(size(), slowest / 50.0)}))
        made.append(("ev", ProcessStatistics, {"processes": rng.sample(range(np_), rng.randint(1, np_)) + rng.choice([[], [np_ + 3]]),
                                               "time_interval": size(), "spatially_resolved": rng.random() < 0.6}))
        made.append(("co", Composition, {"time_interval": size()}))
    model = trace.build(spec)
    kept = {}
    for again in range(2 if case["again"] else 1):
        ans = []
        for k, (name, cls, kw) in enumerate(made):
            # a step distribution may collect over several runs
            if name == "dt" and k in kept:
                ans.append(kept[k][0])
            else:
                ans.append(cls(**kw))
        h = History(spec)
        clock = {"t": rng.choice([0.0, 0.0, 3.0, 100.25]), "first": True}

        def look(step, time, conf):
            if scripted:
                if not clock["first"]:
                    clock["t"] += rng.choice([0.0, 0.125, 0.25, 0.5, 0.5, 1.0, 2.0, 0.0625, 9.0 if rng.random() < 0.2 else 0.125])
                time = clock["t"]
                for a in ans:
                    if clock["first"]:
                        a.setup(step, time, conf)
                    else:
                        a.registerStep(step, time, conf)
            h.look(time, conf, clock["first"])
            clock["first"] = False
        r = drive.run(model, spec, case["steps"], look, analysis=[] if scripted else ans, analysis_interval=case["interval"],
                      seed=spec["seed"] // (again + 1) + again)
        if scripted:
            for a in ans:
                a.finalize()
        if len(h.rows) > 1:
            for k, ((name, cls, kw), a) in enumerate(zip(made, ans)):
                if name == "dt":
                    got = check_steps(ctx, h, a, kw["binsize"], scripted, kept[k][1] if k in kept else {})
                    if got is None:
                        kept.pop(k, None)
                    else:
                        kept[k] = (a, got)
                elif name == "ev":
                    check_events(ctx, h, a, kw["processes"], kw["time_interval"], kw["spatially_resolved"], scripted)
                else:
                    check_composition(ctx, h, a, kw["time_interval"], scripted)
        if again:
            ctx.count("second_runs")
        if r == "dead":
            break
    ctx.sample({"spec": spec, "analyses": [(n, kw) for n, c, kw in made]})
