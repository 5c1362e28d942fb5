"""Runs models and writes down everything that can be seen; under mpirun every process writes its own record.

usage (under mpirun): python -m kmcv.parallel CASES.json OUTDIR
"""
import hashlib
import json
import os
import random
import sys
import time as time_module

from kmcv import drive, trace


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def play(case, where, rank=0):
    """One simulation; returns the record of everything observed in this process."""
    rec = {"events": [], "end": None, "calls": None, "file": None}
    spec = trace.spec_for(case)
    bucket = spec["mode"] == "bucket"
    if spec["calc"]:
        spec["calc"] = dict(spec["calc"], cache=case["cache"], func=case.get("func", spec["calc"]["func"]))
    log = [] if spec["calc"] else None
    rng = random.Random("delay-%s-%d" % (case["seed"], rank))
    kw = {}
    path = None
    if case["trajectory"]:
        path = os.path.join(where, "t-%s.txt" % case["name"])
        kw.update(trajectory_filename=path, trajectory_type=case["trajectory"], dump_interval=case["dump"])
    # clocks of different processes never agree, and the write buffers look at them
    real = time_module.time
    if case["clock"]:
        now = [real() + rng.uniform(0, 5000)]

        def fake():
            now[0] += rng.uniform(0, 1500)
            return now[0]
        time_module.time = fake
    try:
        model = trace.build(spec, log)

        def look(step, time, conf):
            c = drive.contents(conf, bucket)
            rec["events"].append((step, float(time).hex(), int(conf.latestEventProcess()) if step else None,
                                  int(conf.latestEventSite()) if step else None, digest(c)))
            if case["delays"] and rng.random() < 0.1:
                time_module.sleep(rng.uniform(0, 0.002))
            if case.get("states") and step % 5 == 0:
                rec["events"].append((step, digest(drive.sites_of(model)), digest([int(n) for n in conf.particlesPerType()]),
                                      float(model._backend().interactions().totalRate()).hex(), digest(list(conf.atomIDTypes()) if not bucket else 0)))
        kw["seed"] = None if case.get("timeseed") else spec["seed"]
        rec["end"] = str(drive.run(model, spec, case["steps"], look, **kw))
        if rec["events"]:
            rec["final"] = digest(drive.sites_of(model))
    except Exception as e:
        rec["end"] = "%s: %s" % (type(e).__name__, e)
    finally:
        time_module.time = real
    if log is not None:
        rec["calls"] = [digest(x) for x in log]
    if path and os.path.exists(path) and rank == 0:
        rec["path"] = path
    return rec


def text(path):
    return [l for l in open(path).read().split("\n") if not l.startswith("creation_time")]


def main():
    from KMCLib import MPICommons
    cases = json.load(open(sys.argv[1]))
    rank = MPICommons.myRank()
    out = []
    for c in cases:
        out.append(play(c, sys.argv[2], rank))
        out[-1]["size"] = MPICommons.size()
        # what this process finds in the file when the run is over
        p = os.path.join(sys.argv[2], "t-%s.txt" % c["name"])
        if c["trajectory"] and os.path.exists(p):
            MPICommons.barrier()
            out[-1]["file"] = digest(text(p))
    with open(os.path.join(sys.argv[2], "r%d.json" % rank), "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
