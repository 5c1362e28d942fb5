"""Run models through the public interface and record what an observer sees after every step."""
import contextlib
import io
import os
import sys

import KMCLib
from KMCLib import KMCAnalysisPlugin, KMCControlParameters


@contextlib.contextmanager
def quiet():
    """Discard what the library prints."""
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = old


def contents(conf, bucket):
    """Site contents: type names, or dicts of counts for multi-occupancy."""
    t = conf.types()
    if not bucket:
        return list(t)
    out = []
    for site in t:
        d = {}
        for x in site:
            d[x] = d.get(x, 0) + 1
        out.append(d)
    return out


def sites_of(model):
    """Available sites of each process, as the backend lists them."""
    inter = model._backend().interactions()
    out = []
    for p in inter.processes():
        out.append([int(x) for x in p.sites()])
    return out


class Observer(KMCAnalysisPlugin):
    """Calls fn(self, step, time, configuration) after set-up and after every step."""

    def __init__(self, fn):
        self.fn = fn
        self.n = 0
        self.finalized = 0

    def setup(self, step, time, configuration):
        self.fn(step, time, configuration)

    def registerStep(self, step, time, configuration):
        self.n += 1
        self.fn(step, time, configuration)

    def finalize(self):
        self.finalized += 1


NO_EVENTS = "No more available processes."


def control(spec, steps, **kw):
    kw.setdefault("seed", spec["seed"])
    kw.setdefault("rng_type", spec["rng"])
    return KMCControlParameters(number_of_steps=steps, **kw)


def run(model, spec, steps, fn=None, **kw):
    """Run; returns None or the error that ended the run early ('dead' when nothing is left to happen)."""
    run_kw = {k: kw.pop(k) for k in ("trajectory_filename", "trajectory_type", "breakers") if k in kw}
    analysis = list(kw.pop("analysis", []))
    if fn is not None:
        analysis = [Observer(fn)] + analysis
    with quiet():
        try:
            model.run(control_parameters=control(spec, steps, **kw), analysis=analysis or None, **run_kw)
        except KMCLib.Exceptions.Error.Error as e:
            if "available processes" in str(e):
                return "dead"
            raise
    return None
