"""C03: events are chosen in proportion to their rates; time follows the total rate."""
import math
import random

from kmcv import calc, drive, gen, rngref, trace

QUICK, THOROUGH = 420, 4000

# Mersenne twister seeds with an exact zero among the first draws (seed, number of the draw)
ZEROS = [(257678572, 5), (765332060, 8), (1171052417, 10), (1364548856, 10), (556780000, 10), (973626002, 10),
         (59529469, 14), (1949934001, 17), (311702798, 21), (423244649, 21), (863310214, 25), (1384468450, 29),
         (925107294, 31), (1232212319, 33), (1840277746, 34), (708131244, 38), (27494765, 39), (1760012737, 41),
         (419950537, 41), (1203536641, 42), (1929139908, 45), (1964367856, 46), (1701960104, 47), (426806449, 54),
         (1847462169, 56), (1996698403, 56), (708613850, 58), (250723110, 59)]


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"max_sites": 90}
        kind = "fixed"
        if i % 4 == 1:
            kind = "custom"
            opts.update(calc=True, max_sites=40, open_ok=False)
        elif i % 4 == 2:
            opts["zero_rates"] = True
        if i % 5 == 3:
            opts["mode"] = "bucket"
        yield {"kind": kind, "seed": "%d-c03-%d" % (seed, i), "opts": opts,
               "steps": (60 if kind == "custom" else 400) * (4 if i % 20 == 0 else 1)}
    for j, (s, k) in enumerate(ZEROS):
        for rep in range(2 if tier == "quick" else 8):
            for first in (0, 1):
                yield {"kind": "zero", "seed": "%d-c03z-%d-%d" % (seed, j, rep), "rng_seed": s, "at": k, "shift": first}
    for i in range(n // 4):
        yield {"kind": "ring", "seed": "%d-c03r-%d" % (seed, i), "steps": 1200}


def ring(case):
    """Small systems that never die: adsorption, desorption, hops on a ring with given rates, some of them zero."""
    rng = random.Random(case["seed"])
    n = rng.choice([5, 6, 9, 14])
    style = rng.choice(["flat", "mid", "wide", "huge"])

    def rate():
        if style == "huge":
            return 10.0 ** rng.uniform(-12, 12)
        return gen._rate(rng, style)
    procs = []
    for before, after in ((["A"], ["B"]), (["B"], ["A"])):
        procs.append({"coords": [[0.0, 0.0, 0.0]], "before": before, "after": after, "moves": None, "bsites": [0], "rate": rate()})
    for d in (1.0, -1.0):
        procs.append({"coords": [[0.0, 0.0, 0.0], [d, 0.0, 0.0]], "before": ["A", "B"], "after": ["B", "A"], "moves": None,
                      "bsites": [0], "rate": rate()})
    for t in ("A", "B"):
        procs.append({"coords": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0]], "before": [t, "B", "A"],
                      "after": ["B" if t == "A" else "A", "B", "A"], "moves": None, "bsites": [0], "rate": rate()})
    rng.shuffle(procs)
    zero = rng.random()
    if zero < 0.3:
        procs[0]["rate"] = 0.0
    elif zero < 0.6:
        procs[-1]["rate"] = 0.0
    elif zero < 0.75:
        procs[rng.randrange(len(procs))]["rate"] = 0.0
    return {"cell": gen.CELLS[0], "basis": [[0.0, 0.0, 0.0]], "reps": [n, 1, 1], "periodic": [True, False, False],
            "ptypes": ["A", "B"], "mode": "plain", "implicit": True, "calc": None, "procs": procs,
            "types": [rng.choice("AB") for _ in range(n)], "rng": rng.choice(["MT", "MINSTD", "RANLUX24", "RANLUX48"]),
            "seed": rng.randrange(1, 1 << 31)}


class Tally(object):
    """Sums of martingale differences: (observed - expected) and variances by label."""

    def __init__(self):
        self.t = {}

    def add(self, label, x, var):
        a = self.t.setdefault(label, [0.0, 0.0, 0])
        a[0] += x
        a[1] += var
        a[2] += 1


def run_case(ctx, case):
    if case["kind"] == "ring":
        spec = ring(case)
    elif case["kind"] == "zero":
        spec = ring(case)
        spec["rng"], spec["seed"] = "MT", case["rng_seed"]
        # place the zero draw at either end of the process list: nothing available or zero rate first
        if case["shift"]:
            spec["procs"].sort(key=lambda p: p["rate"])
            spec["procs"][0]["rate"] = 0.0
    else:
        spec = trace.spec_for(case)
        if spec["calc"]:
            spec["calc"]["cache"] = False
            spec["calc"]["func"] = random.Random(case["seed"]).choice(["hash", "gate", "wide", "count", "after"])
    steps = case.get("steps", 40)
    u = rngref.draws(spec["rng"], spec["seed"], 3 * steps + 60)
    model = trace.build(spec)
    w = trace.Walk(spec, model)
    st = {"k": -1, "base": -1, "R": 0.0, "rates": None, "tally": Tally(), "pi": [0, 0], "si": [0, 0], "bad": None, "un": []}

    def weights():
        if spec["calc"] is None:
            return [[p.rate] * len(a) for p, a in zip(w.ref.procs, w.act)]
        return [[calc.reference(w.ref, p, s, w.content) for s in a] for p, a in zip(w.ref.procs, w.act)]

    def mon(w):
        inter = model._backend().interactions()
        if not w.first and not st["bad"]:
            judge_step(ctx, w, st, u, spec)
        wt = weights()
        st["rates"] = wt
        st["act"] = w.act
        st["sums"] = [math.fsum(x) for x in wt]
        st["R"] = math.fsum(st["sums"])
        got = float(inter.totalRate())
        if abs(got - st["R"]) > 1e-9 * st["R"]:
            ctx.violation("step %s: total rate %r, the available events sum up to %r" % (w.step, got, st["R"]), spec=spec)

    w.monitors.append(mon)
    r = w.run(steps)
    if r == "dead" and st["R"] > 0.0:
        ctx.violation("the run stopped although events of total rate %r are available" % st["R"], spec=spec)
    ctx.count("steps", w.total)
    ctx.count("steps_" + case["kind"], w.total)
    if case["kind"] == "zero":
        ctx.count("zero_draws_passed", w.total * 3 > case["at"])
    ctx.emit({"tally": st["tally"].t, "pi": st["pi"], "si": st["si"], "un": st["un"][:2], "seed": str(case["seed"])})
    ctx.sample({"spec": spec, "steps": w.total})


def judge_step(ctx, w, st, u, spec):
    R, sums, rates, act = st["R"], st["sums"], st["rates"], st["act"]
    t0, t1 = w.prev[1], w.time
    if not (t1 >= t0 and math.isfinite(t1)):
        ctx.violation("step %s: time goes from %r to %r" % (w.step, t0, t1), spec=spec)
        st["bad"] = True
        return
    dt = t1 - t0
    if w.site not in act[w.pn]:
        ctx.violation("step %s: process %d fired at site %d which was not available" % (w.step, w.pn, w.site), spec=spec)
        st["bad"] = True
        return
    pos = act[w.pn].index(w.site)
    rate = rates[w.pn][pos]
    if not rate > 0.0:
        ctx.violation("step %s: an event of rate %r was chosen (process %d, site %d)" % (w.step, rate, w.pn, w.site), spec=spec)
    # time: one of the next draws of the generator
    slack = R * max(abs(t1), abs(t0)) * 5e-16
    matches = []
    for k in range(st["base"] + 1, min(st["k"] + 13, len(u))):
        if u[k] > 0.0:
            want = -math.log(u[k])
            if abs(dt * R - want) <= 1e-9 * want + slack:
                matches.append(k)
    usual = st["k"] + 3 if st["k"] >= 0 else 0
    found = usual if usual in matches else (matches[0] if matches else None)
    certain = len(matches) == 1
    tally = st["tally"]
    if found is None:
        if slack < 1e-3:
            ctx.violation("step %s: time advanced by %r with total rate %r, which belongs to none of the next draws %s" % (
                w.step, dt, R, ["%.6g" % (-math.log(x) / R if x else 0.0) for x in u[st["k"] + 1:st["k"] + 13]]), spec=spec)
            st["bad"] = True
            return
        found = usual
    st["k"] = found
    if certain:
        st["base"] = found
    ctx.count("time_steps_matched")
    ctx.seen("rates", round(math.log(R), 3), len(rates), sum(1 for s in sums if s > 0))
    x = R * dt
    if slack < 1e-3:
        tally.add("time mean", x - 1.0, 1.0)
        e = math.exp(-1.0)
        tally.add("time > 1", (x > 1.0) - e, e * (1 - e))
        e = math.exp(-3.0)
        tally.add("time > 3", (x > 3.0) - e, e * (1 - e))
        e = 1 - math.exp(-0.1)
        tally.add("time < 0.1", (x < 0.1) - e, e * (1 - e))
    # selection of the process
    pr = [s / R for s in sums]
    live = [i for i, s in enumerate(sums) if s > 0.0]
    if len(live) > 1:
        for label, i in (("first process", live[0]), ("last process", live[-1]),
                         ("fastest", max(live, key=lambda j: sums[j])), ("slowest", min(live, key=lambda j: sums[j])),
                         ("largest rate", max(live, key=lambda j: spec["procs"][j]["rate"])),
                         ("most sites", max(live, key=lambda j: len(act[j])))):
            tally.add(label, (w.pn == i) - pr[i], pr[i] * (1 - pr[i]))
    below = sum(pr[:w.pn])
    mid = below + 0.5 * pr[w.pn]
    if certain and found + 2 < len(u):
        tol = 1e-9
        inside = below - tol <= u[found + 1] <= below + pr[w.pn] + tol
        if pr[w.pn] < 0.5:
            st["pi"][0] += inside
            st["pi"][1] += 1
        if not inside:
            st["un"].append("step %s chose process %d, draw %r, probabilities %s" % (w.step, w.pn, u[found + 1], pr))
        tot = sums[w.pn]
        lo = math.fsum(rates[w.pn][:pos]) / tot
        hi = lo + rate / tot
        inside = lo - tol <= u[found + 2] <= hi + tol
        if rate / tot < 0.5:
            st["si"][0] += inside
            st["si"][1] += 1
        if not inside:
            st["un"].append("step %s chose entry %d of %d of process %d, draw %r" % (w.step, pos, len(act[w.pn]), w.pn, u[found + 2]))
    # selection of the site
    n = len(act[w.pn])
    tot = sums[w.pn]
    if n > 1:
        rs = rates[w.pn]
        for label, j in (("first site", 0), ("last site", n - 1), ("fastest site", max(range(n), key=lambda j: rs[j])),
                         ("lowest number", min(range(n), key=lambda j: act[w.pn][j]))):
            q = rs[j] / tot
            tally.add(label, (pos == j) - q, q * (1 - q))
        q = math.fsum(r for s, r in zip(act[w.pn], rs) if s % 2 == 0) / tot
        tally.add("even sites", (w.site % 2 == 0) - q, q * (1 - q))
        q = math.fsum(rs[:n // 2]) / tot
        tally.add("first half", (pos < n // 2) - q, q * (1 - q))
    # independence of the time step
    if slack < 1e-3:
        v = math.exp(-x) - 0.5
        lo = math.fsum(rates[w.pn][:pos]) / tot + 0.5 * rate / tot
        tally.add("time and process", v * (mid - 0.5), 1.0 / 144)
        tally.add("time and site", v * (lo - 0.5), 1.0 / 144)
        tally.add("process and site", (mid - 0.5) * (lo - 0.5), 1.0 / 144)
