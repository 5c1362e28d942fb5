"""Entry point of every check: python3 kmcv/run.py ID [--replay FILE]

Builds the variants the check needs from the current working tree of /repo in a scratch folder,
runs the cases in parallel worker processes, and judges what the monitors reported.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check could not do its work.
"""
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from kmcv import build  # noqa: E402

HANG = 240.0


def load_known(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["key"]] = d["what"]
    return out


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode(errors="replace")
    except OSError:
        return ""


def sanitizer_head(text):
    for mark in ("ERROR: AddressSanitizer", "runtime error:", "Assertion '", "terminate called"):
        i = text.find(mark)
        if i >= 0:
            return text[max(0, i - 100):i + 400].strip()
    return text[-300:].strip()


def run_shards(pid, jobs, out, deadline, tier, seed):
    """jobs: list of (variant, dest, shard, nshards).  At most 8 at a time.  Returns list of crashes."""
    pending = collections.deque(jobs)
    running, crashes = [], []
    while pending or running:
        while pending and len(running) < build.JOBS:
            variant, dest, shard, nsh = pending.popleft()
            env = build.env_for(dest, variant, VERIF_TIER=tier, VERIF_SEED=str(seed), KMCV_DEADLINE=str(deadline),
                                KMCV_DEST=dest)
            log = os.path.join(out, "log-%s-%d.txt" % (variant, shard))
            fh = ["-X", "faulthandler"] if variant != "asan" else []
            p = subprocess.Popen([build.PY] + fh + ["-m", "kmcv.worker", pid, variant, str(shard), str(nsh), out],
                                 env=env, stdout=open(log, "wb"), stderr=subprocess.STDOUT, start_new_session=True)
            running.append((p, variant, shard, log, time.time()))
        time.sleep(0.05)
        for r in list(running):
            p, variant, shard, log, t0 = r
            rc = p.poll()
            cur = os.path.join(out, "cur-%s-%d.json" % (variant, shard))
            if rc is None:
                last = t0
                if os.path.exists(cur):
                    last = max(last, os.path.getmtime(cur))
                if time.time() - last > HANG:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    running.remove(r)
                    crashes.append((variant, shard, "the case did not end within %d s" % HANG, cur, tail(log)))
                continue
            running.remove(r)
            if rc != 0:
                text = tail(log, 20000)
                if rc == 1 and "Traceback" in text and "Sanitizer" not in text:
                    crashes.append((variant, shard, "harness", cur, text))
                else:
                    crashes.append((variant, shard, "the process died (exit status %d): %s" % (rc, sanitizer_head(text)), cur, text))
    return crashes


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = json.load(open(os.path.join(HERE, "checks", "meta.json")))[pid]
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    variants = [replay.get("variant", meta["variants"][0])] if replay else meta["variants"]
    top = build.scratch()
    os.chmod(top, 0o755)
    status = 2
    try:
        status = go(pid, tier, seed, meta, variants, replay, top, t0)
    except build.BuildError as e:
        print("check error: the tree does not build\n%s" % e)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    sys.stdout.flush()
    return status


def go(pid, tier, seed, meta, variants, replay, top, t0):
    dests = {}
    for v in set(variants) | set(meta.get("extra_builds", [])):
        dests[v] = os.path.join(top, v)
        build.build(v, dests[v])
    for h in meta.get("helpers", []):
        os.environ["KMCV_HELPER_" + h.upper()] = build.helper(h)
    t_build = time.time() - t0
    out = os.path.join(top, "out")
    os.makedirs(out)
    os.environ["KMCV_TOP"] = top
    if replay:
        env = build.env_for(dests[variants[0]], variants[0], VERIF_TIER=tier, VERIF_SEED=str(seed), KMCV_DEST=dests[variants[0]])
        path = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        rc = subprocess.call([build.PY, "-m", "kmcv.worker", "--replay", pid, variants[0], path, out], env=env)
        res = os.path.join(out, "res-%s-0.json" % variants[0])
        if os.path.exists(res):
            for v in json.load(open(res))["violations"]:
                print("VIOLATION property=%s replay=%s\n  %s" % (pid, path, v["msg"]))
                rc = 1
        return rc
    nsh = meta.get("shards", build.JOBS)
    budget = meta.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    deadline = time.time() + budget
    jobs = []
    for v in variants:
        n = nsh if len(variants) == 1 else meta.get("shards_per_variant", {}).get(v, nsh)
        jobs += [(v, dests[v], i, n) for i in range(n)]
    crashes = run_shards(pid, jobs, out, deadline, tier, seed)
    # -- collect ---------------------------------------------------------------------------
    counts = collections.Counter()
    distinct, samples, emits, violations, known = set(), [], [], [], {}
    ncases = skipped = 0
    slow = []
    complete = True
    for v, d, i, n in jobs:
        p = os.path.join(out, "res-%s-%d.json" % (v, i))
        if not os.path.exists(p):
            complete = False
            continue
        r = json.load(open(p))
        counts.update(r["counts"])
        distinct.update(r["distinct"])
        samples += r["samples"]
        emits += r["emits"]
        for x in r["violations"]:
            x["variant"] = v
            violations.append(x)
        for k, w in r["known"].items():
            known.setdefault(k, w)
        ncases += r["ncases"]
        slow += r["slow"]
        skipped += r["skipped"]
        complete = complete and r["done"]
    harness = []
    for variant, shard, what, cur, text in crashes:
        if what == "harness":
            harness.append((variant, shard, text))
            continue
        case = json.load(open(cur))["case"] if os.path.exists(cur) else {"kind": "import of the library"}
        violations.append({"msg": what, "detail": {"log": text[-6000:]}, "case": case, "variant": variant})
    judged = {}
    if emits:
        judge = importlib.import_module("kmcv.judges")
        fn = getattr(judge, pid.lower(), None)
        if fn is not None:
            more, judged = fn(emits, counts)
            violations += [{"msg": m, "detail": {}, "case": {"kind": "aggregate"}, "variant": variants[0]} for m in more]
    listed = load_known(pid)
    for k, w in sorted(known.items()):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, listed[k]))
        else:
            violations.append({"msg": "%s: %s" % (k, w), "detail": {}, "case": {"kind": k}, "variant": variants[0]})
    # -- verdict ---------------------------------------------------------------------------
    status = 0
    if violations:
        status = 1
        rep = os.path.join(VERIF, "replay")
        os.makedirs(rep, exist_ok=True)
        seen = set()
        for n, v in enumerate(violations):
            key = v["msg"][:60]
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            path = os.path.join(rep, "%s-%d.json" % (pid, n))
            v.update(property=pid, tier=tier, seed=seed)
            json.dump(v, open(path, "w"), indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s" % v["msg"][:1500])
            print("  case: %s" % json.dumps(v["case"])[:600])
    missing = [k for k, n in meta.get("require", {}).items() if counts.get(k, 0) < n]
    if status == 0 and (harness or missing or not ncases):
        status = 2
        for variant, shard, text in harness[:2]:
            print("check error in worker %s/%d:\n%s" % (variant, shard, text[-3000:]))
        if missing:
            print("check error: the monitors did not observe enough: %s" %
                  ", ".join("%s=%d (needs %d)" % (k, counts.get(k, 0), meta["require"][k]) for k in missing))
    elif harness:
        for variant, shard, text in harness[:2]:
            print("(also an error in worker %s/%d:\n%s)" % (variant, shard, text[-1500:]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": int(ncases), "distinct_nontrivial": len(distinct), "rule": meta["rule"],
                       "samples": samples[:6], "observed": {k: int(n) for k, n in sorted(counts.items())},
                       "judged": judged, "skipped": skipped, "all_cases_run": complete, "variants": variants,
                       "exhaustive": False},
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations), "known_findings": sorted(known)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if os.environ.get("KMCV_SLOW"):
        for t, c in sorted(slow, key=lambda x: -x[0])[:10]:
            print("  %.1f s %s" % (t, json.dumps(c)[:300]))
    print("%s %s: %d cases (%d skipped), %d distinct, %d violations, build %.0f s, total %.0f s%s" % (
        pid, tier, ncases, skipped, len(distinct), len(violations), t_build, time.time() - t0,
        "" if complete else " [time budget used up]"))
    return status


if __name__ == "__main__":
    sys.exit(main())
