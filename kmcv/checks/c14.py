"""C14: a parallel run is identical to a serial run."""
import collections
import json
import os
import signal
import subprocess

from kmcv import build, parallel

QUICK, THOROUGH = 60, 900
BATCH = 8
LIMIT = 150


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        batch = []
        for j in range(BATCH):
            k = i * BATCH + j
            opts = {}
            if k % 2:
                opts["calc"] = True
            if k % 5 == 2:
                opts["mode"] = "bucket"
            if k % 7 == 3:
                opts["max_sites"] = 12
            if k % 3 == 0:
                opts["open_ok"] = False
            batch.append({"seed": "%d-c14-%d" % (seed, k), "name": "%d" % k, "opts": opts, "steps": 12 if k % 5 else 90,
                          "cache": k % 4 == 1, "func": ["count", "hash", "after", "wide"][(k // 4) % 4], "states": k % 2 == 0 or k % 3 == 0,
                          "trajectory": [None, "lattice", None, "xyz" if opts.get("mode") != "bucket" else "lattice", None][(k // 2) % 5],
                          "dump": [1, 2, 5][k % 3], "clock": k % 3 == 1, "delays": k % 4 == 2})
        yield {"kind": "batch", "ranks": [2, 3, 2, 4, 5, 7, 3, 8, 1, 6, 12, 2][i % 12], "cases": batch}
    for i in range(max(1, n // 30)):
        yield {"kind": "timeseed", "ranks": 3, "cases": [{"seed": "%d-c14t-%d" % (seed, i), "name": "ts", "opts": {}, "steps": 20, "cache": False,
                                                          "trajectory": None, "dump": 1, "clock": False, "delays": True, "timeseed": True}]}


def launch(ctx, case):
    where = os.path.join(ctx.scratch, "mpi")
    os.makedirs(where, exist_ok=True)
    for f in os.listdir(where):
        os.unlink(os.path.join(where, f))
    with open(os.path.join(where, "cases.json"), "w") as f:
        json.dump(case["cases"], f)
    dest = os.path.join(os.environ["KMCV_TOP"], "mpi")
    env = build.env_for(dest, "mpi", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_rmaps_base_oversubscribe="1",
                        OMPI_MCA_btl="self,vader", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_pml="ob1")
    cmd = ["mpirun", "--oversubscribe", "-np", str(case["ranks"])]
    if case["kind"] == "timeseed":
        cmd += ["-x", "LD_PRELOAD=" + os.environ["KMCV_HELPER_RANKTIME"]]
    log = open(os.path.join(where, "log.txt"), "wb")
    p = subprocess.Popen(cmd + [build.PY, "-m", "kmcv.parallel", os.path.join(where, "cases.json"), where], env=env, stdout=log,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        rc = p.wait(LIMIT)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = "timeout"
    out = open(os.path.join(where, "log.txt")).read()
    recs = []
    for r in range(case["ranks"]):
        q = os.path.join(where, "r%d.json" % r)
        recs.append(json.load(open(q)) if os.path.exists(q) else None)
    return rc, out, recs, where


def run_case(ctx, case):
    n = case["ranks"]
    rc, out, recs, where = launch(ctx, case)
    ctx.count("parallel_jobs")
    if rc == "timeout":
        ctx.violation("%d processes: the runs do not end within %d s (the processes wait for one another)" % (n, LIMIT), log=out[-3000:])
        return
    if rc != 0 or None in recs:
        if any(s in out for s in ("not enough slots", "It looks like orte_init failed", "ORTE has lost communication")):
            raise RuntimeError("mpirun does not work: %s" % out[-500:])
        ctx.violation("%d processes: mpirun ended with status %s: %s" % (n, rc, out[-1500:]), log=out[-4000:])
        return
    for i, c in enumerate(case["cases"]):
        mine = [r[i] for r in recs]
        what = "%d processes, model %s" % (n, c["seed"])
        if case["kind"] == "timeseed":
            serial = mine[0]
            ctx.count("time_seeds")
        else:
            serial = json.loads(json.dumps(parallel.play(c, ctx.scratch)))
        for r, m in enumerate(mine):
            ctx.expect(m["size"] == n, "%s: process %d finds %d processes" % (what, r, m["size"]))
            if not ctx.expect(m["events"] == serial["events"] and m["end"] == serial["end"] and m.get("final") == serial.get("final"),
                              "%s: process %d differs from %s: %s" % (what, r, "the first process" if case["kind"] == "timeseed" else "the serial run",
                                                                      first(serial, m)), case=c):
                break
            ctx.count("histories_compared")
            ctx.count("steps_compared", len(m["events"]))
        if serial["calls"] is not None and not c["cache"] and case["kind"] != "timeseed":
            want = collections.Counter(serial["calls"])
            got = collections.Counter()
            for m in mine:
                got.update(m["calls"])
            ctx.expect(want == got, "%s: rates were evaluated %d times by all processes together, %d times in the serial run%s" % (
                what, sum(got.values()), sum(want.values()), "" if sum(got.values()) != sum(want.values()) else ", with other input"), case=c)
            ctx.count("rate_evaluations", sum(got.values()))
            ctx.count("shared_work", sum(1 for m in mine if m["calls"]) > 1)
        if c["trajectory"] and serial["events"]:
            a = parallel.text(serial["path"])
            b = parallel.text(os.path.join(where, "t-%s.txt" % c["name"]))
            ctx.expect(a == b, "%s: the trajectory file differs from the serial one: %d instead of %d lines" % (what, len(b), len(a)), case=c)
            ctx.expect(all(m["file"] == parallel.digest(a) for m in mine), "%s: a process finds another trajectory file" % what)
            ctx.count("trajectories_compared")
            if c["clock"]:
                ctx.count("trajectories_with_skewed_clocks")
        ctx.seen(n, parallel.digest(serial["events"]))
        if i == 0:
            ctx.sample({"ranks": n, "case": c, "steps": len(serial["events"]), "calls_per_process": [len(m["calls"] or []) for m in mine]})


def first(a, b):
    if a["end"] != b["end"]:
        return "it ends with %s instead of %s" % (b["end"], a["end"])
    for x, y in zip(a["events"], b["events"]):
        if x != y:
            return "%s instead of %s" % (y, x)
    return "%d instead of %d events" % (len(b["events"]), len(a["events"]))
