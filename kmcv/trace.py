"""Walks: a model is run through the public interface while every state is checked or recorded."""
import random

from kmcv import calc, drive, gen, geom


def spec_for(case):
    """The model of a case (cases carry a seed and generator options, or a complete spec)."""
    if "spec" in case:
        return case["spec"]
    rng = random.Random("model-%s" % case["seed"])
    return gen.model(rng, **case.get("opts", {}))


def build(spec, log=None):
    return gen.realize(spec, calc.make(spec["calc"], log) if spec["calc"] else None)


class Walk(object):
    """State handed to monitors: the observer fills it after set-up and after every step."""

    def __init__(self, spec, model, ref=None, sites=True):
        self.spec, self.model, self.ref = spec, model, ref or geom.Reference(spec)
        self.bucket = spec["mode"] == "bucket"
        self.want_sites = sites
        self.step = None
        self.time = None
        self.content = self.act = None
        self.prev = None
        self.pn = self.site = None
        self.monitors = []
        self.total = 0

    def __call__(self, step, time, conf):
        self.conf = conf
        self.prev = (self.step, self.time, self.content, self.act)
        self.first = self.prev[0] is None or self.fresh
        self.fresh = False
        self.step, self.time = step, time
        self.content = drive.contents(conf, self.bucket)
        if self.want_sites:
            self.act = drive.sites_of(self.model)
        if not self.first:
            self.total += 1
            self.pn, self.site = int(conf.latestEventProcess()), int(conf.latestEventSite())
        for m in self.monitors:
            m(self)

    def run(self, steps, **kw):
        self.fresh = True
        return drive.run(self.model, self.spec, steps, self, **kw)


def fresh_sites(spec, content):
    """Available sites of a model that is built anew from the given contents."""
    s = dict(spec)
    if spec["mode"] == "plain":
        s["types"] = list(content)
    else:
        s["types"] = [sorted([n, t] for t, n in c.items() if n) for c in content]
    m = build(s)
    return drive.sites_of(m)
