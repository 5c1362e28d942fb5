"""C09: trajectory files hold the states that really occurred, at the requested times."""
import os
import random
import re
import time as time_module

from KMCLib import KMCAnalysisPlugin, KMCBreakerPlugin

from kmcv import calc, drive, gen, trace
from kmcv.worker import Skip

QUICK, THOROUGH = 480, 6000
ODD = ["A'", 'B"q', "C\\n", "a_very_long_type_name_of_more_than_sixteen_characters"]


NO_SANITIZER = ("many",)


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        opts = {"mode": "bucket" if i % 4 == 3 else "plain"}
        if i % 7 in (2, 4):
            opts["calc"] = True
        if i % 5 == 1 and opts["mode"] == "plain":
            opts["names"] = ODD
        yield {"kind": "file", "seed": "%d-c09-%d" % (seed, i), "opts": opts, "steps": 60 if i % 6 else 400,
               "format": "xyz" if i % 2 == 0 and opts["mode"] == "plain" else "lattice",
               "fault": [None, None, "register", "interrupt", "rate", "break", "analysis-setup"][i % 7], "clock": i % 3 == 0}
    for i in range(2 if tier == "quick" else 10):
        yield {"kind": "many", "seed": "%d-c09m-%d" % (seed, i), "format": ["lattice", "xyz"][i % 2]}
    for i in range(n // 20):
        yield {"kind": "single", "seed": "%d-c09s-%d" % (seed, i), "format": ["lattice", "xyz"][i % 2]}


class Fault(Exception):
    pass


class Stop(KMCBreakerPlugin):
    def __init__(self, at):
        self.at = at

    def interval(self):
        return 1

    def evaluate(self, step, time, configuration):
        return step >= self.at


class Raiser(KMCAnalysisPlugin):
    def __init__(self, at, error, where):
        self.at, self.error, self.where = at, error, where

    def setup(self, step, time, configuration):
        if self.where == "setup":
            raise self.error

    def registerStep(self, step, time, configuration):
        if step >= self.at:
            raise self.error

    def finalize(self):
        pass


def read_lattice(path):
    env = {}
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), env)
    n = len(env["times"])
    if not (len(env["steps"]) == len(env["types"]) == n):
        raise ValueError("%d times, %d steps and %d types in the file" % (n, len(env["steps"]), len(env["types"])))
    return env["sites"], [(env["steps"][i], env["times"][i], env["types"][i]) for i in range(n)]


def read_xyz(path):
    with open(path) as f:
        lines = f.read().split("\n")
    if lines[-1] != "" or not lines[0].startswith("KMCLib XYZ FORMAT"):
        raise ValueError("the file does not begin or end as it should")
    head = {}
    i = 1
    while i < len(lines) and not lines[i].startswith("STEP"):
        l = lines[i]
        if l[:3] in ("a: ", "b: ", "c: "):
            head[l[0]] = [float(x) for x in l[3:].split()]
        elif l.startswith("REPETITIONS"):
            head["reps"] = [int(x) for x in l.split()[1:]]
        elif l.startswith("PERIODICITY"):
            head["per"] = [x == "True" for x in l.split()[1:]]
        i += 1
    frames = []
    while i < len(lines) - 1:
        m = re.match(r"STEP (\d+)$", lines[i])
        n = int(lines[i + 1])
        t = re.match(r"\s*TIME\s+(\S+)$", lines[i + 2])
        atoms = []
        for l in lines[i + 3:i + 3 + n]:
            w = l.rsplit(None, 4)
            atoms.append((w[0].strip(), [float(x) for x in w[1:4]], int(w[4])))
        if [a[2] for a in atoms] != list(range(n)):
            raise ValueError("the particles of a frame are not numbered in order")
        frames.append((int(m.group(1)), float(t.group(1)), [(a[0], a[1]) for a in atoms]))
        i += 3 + n
    return head, frames


def counts(site):
    """Occupation of one site, in any of the forms used for it."""
    d = {}
    for x in site:
        n, t = x if isinstance(x, tuple) else (1, x)
        d[t] = d.get(t, 0) + n
    return d


class Record(object):
    def __init__(self, bucket):
        self.bucket = bucket
        self.states = {}
        self.t0 = None
        self.last = None

    def __call__(self, step, time, conf):
        self.states[step] = (time, drive.contents(conf, self.bucket), None if self.bucket else list(conf.atomIDTypes()),
                             [tuple(float(y) for y in x) for x in conf.atomIDCoordinates()])
        self.last = step


def near(a, b, rel=2e-10):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def equal_frame(fmt, bucket, frame, state):
    if not near(frame[1], state[0]):
        return "time %r instead of %r" % (frame[1], state[0])
    if fmt == "lattice":
        got = [counts(x) for x in frame[2]] if bucket else list(frame[2])
        if got != state[1]:
            return "other site types"
        return None
    types, coords = state[2], state[3]
    if [a[0] for a in frame[2]] != types:
        return "other particle types"
    for a, c in zip(frame[2], coords):
        if max(abs(x - y) for x, y in zip(a[1], c)) > 1e-9 * (1.0 + max(map(abs, c))):
            return "a particle at %s instead of %s" % (a[1], c)
    return None


def compare(ctx, case, spec, path, rec, kw, failed_during_step):
    """failed_during_step: the step that was begun but not completed, if any."""
    fmt, bucket = case["format"], spec["mode"] == "bucket"
    try:
        head, frames = (read_lattice if fmt == "lattice" else read_xyz)(path)
    except Exception as e:
        ctx.violation("the %s file cannot be read back: %s: %s" % (fmt, type(e).__name__, e), spec=spec)
        return
    ref = trace.geom.Lattice(spec)
    if fmt == "lattice":
        ok = len(head) == ref.n and all(max(abs(x - y) for x, y in zip(h, ref.coord(s))) <= 6e-7 for s, h in enumerate(head))
        ctx.expect(ok, "the sites in the file are not those of the lattice")
    else:
        ok = (head.get("reps") == list(spec["reps"]) and head.get("per") == [bool(x) for x in spec["periodic"]]
              and all(all(near(x, float(y)) for x, y in zip(head[k], v)) for k, v in zip("abc", spec["cell"])))
        ctx.expect(ok, "the lattice in the file (%s) is not that of the simulation" % head)
    st = rec.states
    if 0 not in st:
        # set-up failed: at most the initial frame can be there
        ctx.expect(len(frames) <= 1 and all(f[0] == 0 for f in frames), "frames of steps that were not simulated")
        return
    last = rec.last
    due = [0]
    slack = 0
    if "dump_time_interval" in kw:
        dt, t0 = kw["dump_time_interval"], st[0][0]
        s, k = 0, 1
        unsure = 0
        while True:
            t = t0 + k * dt
            while s < last and st[s + 1][0] <= t:
                s += 1
            if s == last and not st[last][0] > t:
                if st[last][0] > t - 1e-9 * max(abs(t), dt):
                    unsure += 1
                # beyond the last event: due only if the following (unfinished) step waited longer
                break
            if min(abs(st[x][0] - t) for x in (s, min(s + 1, last))) < 1e-9 * max(abs(t), dt):
                unsure += 1
            due.append(s)
            k += 1
        if unsure:
            ctx.count("samples_at_an_event")
            return
        if failed_during_step:
            slack = 10 ** 9
    else:
        n = kw.get("dump_interval", 1)
        due += [x for x in range(1, last + 1) if x % n == 0]
        if failed_during_step == "after" and (last + 1) % n == 0:
            slack = 1
    got = [f[0] for f in frames]
    if got[:len(due)] != due or len(got) > len(due) + slack:
        bad = [i for i, (a, b) in enumerate(zip(got, due)) if a != b]
        ctx.violation("frames of steps %s... (%d frames) instead of %s... (%d frames) with %s" % (
            got[max(0, (bad or [len(due)])[0] - 3):][:8], len(got), due[max(0, (bad or [len(got)])[0] - 3):][:8], len(due), kw), spec=spec)
        return
    for i, f in enumerate(frames):
        if f[0] not in st:
            continue
        bad = equal_frame(fmt, bucket, f, st[f[0]])
        if bad:
            ctx.violation("frame %d (step %d): %s" % (i, f[0], bad), spec=spec)
            return
        ctx.count("frames_compared")
        ctx.seen(fmt, bucket, hash(str(f)))
    for i in range(len(due), len(frames)):
        ctx.expect(frames[i][0] == last, "a frame of step %d after the last step %d" % (frames[i][0], last))
    ctx.count("files_" + fmt + ("_multi" if bucket else ""))


def file_case(ctx, case):
    spec = trace.spec_for(case)
    rng = random.Random("traj-" + case["seed"])
    path = os.path.join(ctx.scratch, "traj")
    if os.path.exists(path) and rng.random() < 0.5:
        os.remove(path)
    fault = case["fault"]
    if fault == "rate" and not spec["calc"]:
        fault = None
    log = []
    cl = None
    at = rng.randint(1, case["steps"])
    if spec["calc"]:
        base = calc.make(spec["calc"], log)
        if fault == "rate":
            limit = [rng.randint(5, 400), False]

            class Failing(base):
                def rate(self, *a):
                    limit[0] -= 1
                    if limit[0] <= 0:
                        limit[1] = True
                        raise Fault("rate")
                    return base.rate(self, *a)
            cl = Failing
        else:
            cl = base
    try:
        model = gen.realize(spec, cl)
        model._backend()
    except Fault:
        raise Skip()
    if case.get("runs", rng.random() < 0.3):
        # not the first run of the model: it starts at a later time
        try:
            drive.run(model, spec, rng.randint(1, 20), seed=11)
        except Fault:
            raise Skip()
    # the scale of the times
    twin_rec = Record(spec["mode"] == "bucket")
    twin = gen.realize(dict(spec), calc.make(spec["calc"]) if spec["calc"] else None)
    drive.run(twin, spec, case["steps"], twin_rec)
    if 0 not in twin_rec.states:
        raise Skip()
    span = twin_rec.states[twin_rec.last][0] / max(twin_rec.last, 1)
    if rng.random() < 0.5:
        kw = {"dump_interval": rng.choice([1, 2, 3, 7, case["steps"], case["steps"] + 1])}
        if rng.random() < 0.15:
            kw = {}
    else:
        kw = {"dump_time_interval": span * rng.choice([0.3, 1.0, 2.7, 10.0, 1000.0]) * rng.uniform(0.8, 1.25)}
        if not kw["dump_time_interval"] > 0 or not kw["dump_time_interval"] < 1e300:
            raise Skip()
    rec = Record(spec["mode"] == "bucket")
    extra = []
    breakers = None
    if fault == "register":
        extra = [Raiser(at, Fault("register"), "step")]
    elif fault == "interrupt":
        extra = [Raiser(at, KeyboardInterrupt(), "step")]
    elif fault == "analysis-setup":
        extra = [Raiser(10 ** 9, Fault("setup"), "setup")]
    elif fault == "break":
        breakers = [Stop(at)]
    # a clock on which the buffer's time limit passes every now and then
    real = time_module.time
    if case["clock"]:
        now = [real()]

        def fake():
            now[0] += 700.0
            return now[0]
        time_module.time = fake
    ended = None
    try:
        ended = drive.run(model, spec, case["steps"], rec, analysis=extra, breakers=breakers, trajectory_filename=path,
                          trajectory_type=case["format"], **kw)
    except (Fault, KeyboardInterrupt) as e:
        ended = type(e).__name__
        ctx.count("faults_" + str(fault))
    finally:
        time_module.time = real
    if ended == "dead" and rec.last is None:
        raise Skip()
    if case["clock"]:
        ctx.count("with_clock")
    during = None
    if spec["calc"] and fault == "rate" and ended == "Fault":
        during = "during"
    compare(ctx, case, spec, path, rec, kw, during)
    ctx.count("ended_%s" % ended)
    ctx.sample({"case": case, "settings": kw, "ended": str(ended), "steps": rec.last})


def many(ctx, case):
    """More data than fits the write buffer (10 MB)."""
    rng = random.Random(case["seed"])
    n = 3000
    types = ["A" if rng.random() < 0.5 else "B" for _ in range(n)]
    procs = [{"coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "bsites": [0], "rate": 1.0}
             for a, b in (("A", "B"), ("B", "A"))]
    spec = {"cell": gen.CELLS[0], "basis": [[0.0, 0.0, 0.0]], "reps": [n, 1, 1], "periodic": [True, False, False],
            "ptypes": ["A", "B"], "mode": "plain", "implicit": True, "calc": None, "procs": procs, "types": types,
            "rng": "MT", "seed": rng.randrange(1, 10 ** 6)}
    steps = 500 if case["format"] == "lattice" else 170
    rec = Record(False)
    path = os.path.join(ctx.scratch, "many")
    sizes = []
    model = gen.realize(spec)
    size = [0]

    def look(step, time, conf):
        rec(step, time, conf)
        s = os.path.getsize(path) if os.path.exists(path) else 0
        if s != size[0]:
            size[0] = s
            sizes.append((step, s))
    drive.run(model, spec, steps, look, trajectory_filename=path, trajectory_type=case["format"])
    if len(sizes) > 1:
        ctx.count("flushed_while_running")
    compare(ctx, case, spec, path, rec, {}, None)
    os.remove(path)


def single(ctx, case):
    """One lattice site."""
    rng = random.Random(case["seed"])
    multi = case["format"] == "lattice" and rng.random() < 0.5
    spec = {"cell": gen.CELLS[0], "basis": [[0.25, 0.0, 0.0]], "reps": [1, 1, 1], "periodic": [rng.random() < 0.5, False, False],
            "ptypes": ["A", "B"], "implicit": True, "calc": None, "rng": "MT", "seed": rng.randrange(1, 10 ** 6)}
    if multi:
        spec.update(mode="bucket", types=[[[1, "A"]]], procs=[
            {"coords": [[0.0, 0.0, 0.0]], "match": [[[1, a]]], "update": [[[-1, a], [k, b]]], "bsites": [0], "rate": 1.0}
            for a, b, k in (("A", "B", 1), ("B", "A", 1))] + [
            {"coords": [[0.0, 0.0, 0.0]], "match": [[[1, "*"]]], "update": [[[1, "A"]]], "bsites": [0], "rate": 0.3},
            {"coords": [[0.0, 0.0, 0.0]], "match": [[[1, "A"]]], "update": [[[-1, "A"]]], "bsites": [0], "rate": 0.5}])
    else:
        spec.update(mode="plain", types=["A"], procs=[
            {"coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "bsites": [0], "rate": 1.0}
            for a, b in (("A", "B"), ("B", "A"))])
    case = dict(case, steps=40)
    rec = Record(multi)
    path = os.path.join(ctx.scratch, "single")
    model = gen.realize(spec)
    kw = rng.choice([{}, {"dump_interval": 3}, {"dump_time_interval": 0.7}])
    drive.run(model, spec, 40, rec, trajectory_filename=path, trajectory_type=case["format"], **kw)
    compare(ctx, case, spec, path, rec, kw, None)
    ctx.count("single_site")


def run_case(ctx, case):
    {"file": file_case, "many": many, "single": single}[case["kind"]](ctx, case)
