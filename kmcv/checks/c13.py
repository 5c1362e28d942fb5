"""C13: the run loop calls everything exactly when it is due and always cleans up."""
import random

import numpy

import KMCLib
from KMCLib import KMCAnalysisPlugin, KMCBreakerPlugin

from kmcv import calc, drive, gen, trace

QUICK, THOROUGH = 1400, 20000


class Boom(Exception):
    pass


class Odd(BaseException):
    pass


FAULTS = [None, None, None, "register", "register", "evaluate", "evaluate", "interval", "rate"]


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        fault = FAULTS[i % len(FAULTS)]
        opts = {}
        if fault == "rate" or i % 11 == 4:
            opts["calc"] = True
        if i % 3 == 0:
            opts["open_ok"] = False
        yield {"kind": "loop", "seed": "%d-c13-%d" % (seed, i), "opts": opts, "fault": fault,
               "dead": fault != "rate" and i % 6 == 1, "steps": [0, 1, 2, 7, 25, 60, 60, 60, 200, 60, 33][i % 11]}


def dying(spec, rng):
    """A model that runs out of events: in-place changes in one direction only."""
    spec = dict(spec)
    spec["calc"] = None
    if spec["mode"] == "plain":
        a, b = sorted(set(spec["types"]))[:2] if len(set(spec["types"])) > 1 else (spec["types"][0], [t for t in spec["ptypes"] if t != spec["types"][0]][0])
        spec["procs"] = [{"coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None,
                          "bsites": list(range(len(spec["basis"]))), "rate": 2.0}]
        if a not in spec["types"]:
            spec["types"][0] = a
    else:
        t = spec["ptypes"][0]
        spec["procs"] = [{"coords": [[0.0, 0.0, 0.0]], "match": [[[1, t]]], "update": [[[-1, t]]],
                          "bsites": list(range(len(spec["basis"]))), "rate": 2.0}]
        spec["types"] = [list(x) for x in spec["types"]]
        spec["types"][0] = [[2, t]]
    return spec


class Log(object):
    def __init__(self, conf, bucket):
        self.conf, self.bucket = conf, bucket
        self.calls = []

    def __call__(self, who, what, step, time, conf):
        self.calls.append((who, what, step, time))
        return conf is self.conf


class Ana(KMCAnalysisPlugin):
    def __init__(self, name, st):
        self.name, self.st = name, st

    def setup(self, step, time, configuration):
        self.st.note(self.name, "setup", step, time, configuration)

    def registerStep(self, step, time, configuration):
        self.st.note(self.name, "step", step, time, configuration)
        self.st.fault("register", self.name, step)

    def finalize(self):
        self.st.note(self.name, "finalize", None, None, None)


class Brk(KMCBreakerPlugin):
    def __init__(self, name, st, every, stop, yes):
        self.name, self.st, self.every, self.stop, self.yes = name, st, every, stop, yes
        self.asked = 0

    def setup(self, step, time, configuration):
        self.st.note(self.name, "setup", step, time, configuration)

    def interval(self):
        self.asked += 1
        if self.st.step is not None:
            self.st.fault("interval", self.name, self.asked)
        return self.every

    def evaluate(self, step, time, configuration):
        self.st.note(self.name, "evaluate", step, time, configuration)
        self.st.fault("evaluate", self.name, step)
        return self.yes if step >= self.stop else random.choice([False, None, 0])


class State(object):
    def __init__(self, ctx, spec, model):
        self.ctx, self.spec = ctx, spec
        self.bucket = spec["mode"] == "bucket"
        self.conf = None
        self.model = model
        self.calls = []
        self.step = None
        self.plan = None
        self.raised = None
        self.looks = {}

    def note(self, who, what, step, time, conf):
        self.calls.append((who, what, step, time))
        self.step = step
        if what != "finalize":
            self.conf = self.conf or conf
            if conf is not self.conf:
                self.ctx.violation("%s of %s is handed another configuration object" % (what, who))
            self.looks.setdefault(step, []).append((time, drive.contents(conf, self.bucket)))

    def fault(self, kind, who, step):
        if self.plan and self.plan[:2] == (kind, who) and step >= self.plan[2] and self.raised is None:
            self.raised = self.plan[3]("planted")
            raise self.raised


def history(spec, model, steps, **kw):
    rows = []
    r = drive.run(model, spec, steps, lambda s, t, c: rows.append((s, t, drive.contents(c, spec["mode"] == "bucket"))), **kw)
    return r, rows


def run_case(ctx, case):
    random.seed("loop-" + case["seed"])
    rng = random.Random("loop-" + case["seed"])
    spec = trace.spec_for(case)
    if case["dead"]:
        spec = dying(spec, rng)
    steps = case["steps"]
    # what happens without any plugins in the way
    twin = trace.build(spec)
    try:
        end, rows = history(spec, twin, steps)
    except KMCLib.Exceptions.Error.Error as e:
        # nothing can happen at all
        return nothing(ctx, spec, str(e))
    if not rows:
        return nothing(ctx, spec, end)
    possible = len(rows) - 1
    for k, (s, t, c) in enumerate(rows):
        ctx.expect(s == k, "the observer is told of step %s as number %d" % (s, k))
    # the run under test
    armed = {"on": None, "calls": 0}
    log = None
    if case["fault"] == "rate" and spec["calc"]:
        class Hook(list):
            def append(self, x):
                armed["calls"] += 1
                if armed["on"] is not None and armed["calls"] > armed["on"] and armed.get("raised") is None:
                    armed["raised"] = Boom("planted")
                    raise armed["raised"]
        log = Hook()
    model = trace.build(spec, log)
    st = State(ctx, spec, model)
    every = rng.choice([1, 1, 2, 3, 7, steps, steps + 1]) or 1
    anas = [Ana("a%d" % i, st) for i in range(rng.choice([0, 1, 2, 3]) or (1 if case["fault"] == "register" else 0))]
    brks = []
    for i in range(rng.choice([0, 1, 1, 2, 3]) or (1 if case["fault"] in ("evaluate", "interval") else 0)):
        stop = rng.choice([10 ** 9, rng.randint(1, max(steps, 1)), 10 ** 9])
        brks.append(Brk("b%d" % i, st, rng.choice([1, 2, 3, 5, max(steps, 1), steps + 1]), stop, rng.choice([True, 1, numpy.bool_(True)])))
    kw = {"analysis_interval": every}
    if rng.random() < 0.3:
        kw["dump_interval"] = rng.choice([1, 2, 3, steps + 1])
    elif rng.random() < 0.3 and possible:
        kw["dump_time_interval"] = max((rows[-1][1] - rows[0][1]) / rng.choice([3.0, 40.0]), 1e-12)
    if case["fault"] == "register":
        st.plan = ("register", rng.choice(anas).name, rng.randint(1, max(steps, 1)), rng.choice([Boom, KeyboardInterrupt, Odd, SystemExit, KMCLib.Exceptions.Error.Error]))
    elif case["fault"] in ("evaluate", "interval"):
        st.plan = (case["fault"], rng.choice(brks).name, rng.randint(1, max(steps, 1)), rng.choice([Boom, KeyboardInterrupt, Odd, GeneratorExit]))
    if log is not None:
        model._backend()
        armed["on"] = armed["calls"] + rng.randint(0, 300)
    # -- expectation, straight from the description of the loop ------------------------------------
    last, why, faulty = 0, "end", None
    for s in range(1, steps + 1):
        if s > possible:
            why = "dead"
            break
        last = s
        if case["fault"] == "register" and s % every == 0 and s >= st.plan[2]:
            why, faulty = "fault", st.plan[1]
            break
        out = None
        for b in brks:
            if case["fault"] == "interval" and st.plan[1] == b.name and s >= st.plan[2]:
                out = ("fault", b.name)
                break
            if s % b.every == 0:
                if case["fault"] == "evaluate" and st.plan[1] == b.name and s >= st.plan[2]:
                    out = ("fault", b.name)
                    break
                if s >= b.stop:
                    out = ("break", b.name)
                    break
        if out:
            why, faulty = out
            break
    caught = None
    with drive.quiet():
        try:
            model.run(control_parameters=drive.control(spec, steps, **kw), analysis=(tuple(anas) if rng.random() < 0.3 else anas) or None,
                      breakers=(tuple(brks) if rng.random() < 0.3 else brks) or None)
        except BaseException as e:
            caught = e
    cfg = "%d steps, analyses %s every %d, breakers %s, fault %s, %s" % (
        steps, [a.name for a in anas], every, [(b.name, b.every, b.stop) for b in brks], st.plan and st.plan[:3], kw)
    if log is not None:
        if armed.get("raised") is None:
            return
        # the step in which the calculator failed is not known beforehand
        ctx.expect(caught is not None and isinstance(caught, (Boom, RuntimeError)), "%s: a failing rate calculator ends the run with %r" % (cfg, caught))
        for a in anas:
            mine = [c for c in st.calls if c[0] == a.name]
            ctx.expect(mine and mine[-1][1] == "finalize" and sum(c[1] == "finalize" for c in mine) == 1,
                       "%s: analysis %s was finalized %d times after a failing rate" % (cfg, a.name, sum(c[1] == "finalize" for c in mine)), spec=spec)
            told = [c[2] for c in mine if c[1] == "step"]
            ctx.expect(told == [s for s in range(1, len(told) * every + 1) if s % every == 0], "%s: analysis %s was told of steps %s before the rate failed" % (cfg, a.name, told))
        ctx.count("ended_by_rate")
        return
    # -- how it ended ----------------------------------------------------------------------------
    ctx.count("ended_" + why)
    if why == "fault":
        ctx.expect(caught is st.raised and caught is not None, "%s: the run ends with %r instead of the exception raised by %s in step %d" % (cfg, caught, faulty, last), spec=spec)
        ctx.count("faults_" + case["fault"])
    elif why == "dead":
        ctx.expect(isinstance(caught, KMCLib.Exceptions.Error.Error), "%s: without available events after step %d the run ends with %r" % (cfg, last, caught), spec=spec)
    else:
        ctx.expect(caught is None, "%s: the run ends with %r" % (cfg, caught), spec=spec)
    # -- who was told what -----------------------------------------------------------------------
    pos = [a.name for a in anas]
    for i, a in enumerate(anas):
        mine = [(c[1], c[2]) for c in st.calls if c[0] == a.name]
        want = [("setup", 0)] + [("step", s) for s in range(1, last + 1) if s % every == 0] + [("finalize", None)]
        alt = want
        if why == "fault" and case["fault"] == "register" and pos.index(faulty) != i:
            # other analyses may or may not have been told of the failing step
            alt = [c for c in want if c != ("step", last)]
        ctx.expect(mine == want or mine == alt, "%s: analysis %s was called %s, due was %s" % (cfg, a.name, diff(mine, want), "(called, due)"), spec=spec)
        ctx.count("analyses")
    for b in brks:
        mine = [(c[1], c[2]) for c in st.calls if c[0] == b.name]
        want = [("setup", 0)] + [("evaluate", s) for s in range(1, last + 1) if s % b.every == 0]
        if why == "fault" and case["fault"] == "interval" and b.name == faulty:
            want = [c for c in want if c != ("evaluate", last)]
        alt = [c for c in want if c != ("evaluate", last)] if why in ("fault", "break") and faulty != b.name else want
        ctx.expect(mine == want or mine == alt, "%s: breaker %s was called %s" % (cfg, b.name, diff(mine, want)), spec=spec)
        ctx.count("breakers")
    order = [c for c in st.calls if c[1] in ("setup", "step", "evaluate", "finalize")]
    rank = {"setup": 0, "step": 1, "evaluate": 1, "finalize": 2}
    ranks = [rank[c[1]] for c in order]
    ctx.expect(ranks == sorted(ranks), "%s: set-up, steps and finalization are mixed up: %s" % (cfg, [c[:3] for c in order][:12]))
    ss = [c[2] for c in order if c[2] is not None]
    ctx.expect(ss == sorted(ss), "%s: callbacks go back in steps" % cfg)
    # -- with the step's time and configuration ------------------------------------------------------
    for s, l in st.looks.items():
        if s > possible:
            ctx.violation("%s: a callback in step %d, but only %d steps can be taken" % (cfg, s, possible))
            break
        for t, c in l:
            ctx.count("callbacks")
            if t != rows[s][1] or c != rows[s][2]:
                ctx.violation("%s: a callback of step %d is shown time %r (was %r) and %s configuration" % (
                    cfg, s, t, rows[s][1], "the right" if c == rows[s][2] else "another"), spec=spec)
                break
    got = conf_of(model)
    ctx.expect(got == rows[last][2], "%s: after the run (%d steps due) the configuration is %s" % (
        cfg, last, "that of step %s" % [k for k, r in enumerate(rows) if r[2] == got][:3]), spec=spec)
    ctx.seen(steps, every, tuple((b.every, b.stop) for b in brks), case["fault"], why, last)
    ctx.count("steps", last)
    # -- and on it goes --------------------------------------------------------------------------
    seed2 = rng.randrange(1, 10 ** 6)
    ref = trace.build(spec)
    history(spec, ref, last)
    e1, r1 = history(spec, ref, 12, seed=seed2)
    e2, r2 = history(spec, model, 12, seed=seed2)
    ctx.expect(e1 == e2 and r1 == r2, "%s: the run after it differs from one that follows a plain run of %d steps: %s" % (
        cfg, last, [(a, b) for a, b in zip(r1, r2) if a != b][:1] or (len(r1), len(r2), e1, e2)), spec=spec)
    if r2:
        ctx.expect(r2[0][1] == rows[last][1] and r2[0][2] == rows[last][2] and r2[0][0] == 0, "%s: the next run starts at time %r instead of %r" % (cfg, r2[0][1], rows[last][1]))
        ctx.count("continued")
    ctx.sample({"spec": spec, "loop": cfg, "ended": why, "after": last})


def conf_of(model):
    conf = model.kmcv_configuration
    return drive.contents(conf, not isinstance(list(conf.types())[0], str))


def diff(got, want):
    i = 0
    while i < min(len(got), len(want)) and got[i] == want[i]:
        i += 1
    return "%s at position %d (due %s; %d calls, %d due)" % (got[i:i + 3], i, want[i:i + 3], len(got), len(want))


def nothing(ctx, spec, msg):
    """A model without any available event: an Error, and no plugin is left set up but not finalized."""
    model = trace.build(spec)
    st = State(ctx, spec, model)
    a = Ana("a", st)
    caught = None
    with drive.quiet():
        try:
            model.run(control_parameters=drive.control(spec, 10), analysis=[a])
        except BaseException as e:
            caught = e
    ctx.expect(isinstance(caught, KMCLib.Exceptions.Error.Error), "a model without available events ends with %r" % (caught,), spec=spec)
    kinds = [c[1] for c in st.calls]
    ctx.expect(kinds in ([], ["setup", "finalize"]), "a model without available events calls its analysis: %s" % kinds)
    ctx.count("nothing_available")
