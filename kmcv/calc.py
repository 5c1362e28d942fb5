"""Custom rate calculators used by the workloads (real plugins, deterministic functions of their input)."""
import zlib

from KMCLib import KMCRateCalculatorPlugin


def content(x):
    """Normal form of what a calculator is shown for one site."""
    if isinstance(x, str):
        return x
    # occupations: list of (n, type)
    return ",".join("%i%s" % (n, t) for n, t in sorted(((int(a), b) for a, b in x), key=lambda z: z[1]) if n != 0 and t != "*")


def geokey(geometry):
    return ";".join("%.4f,%.4f,%.4f" % tuple(float(x) + 0.0 if abs(x) > 1e-9 else 0.0 for x in g) for g in geometry)


def value(func, salt, number, rate_constant, before, after):
    """Rate as a function of process and the contents around the site (in the order of the site list)."""
    if func == "const":
        return rate_constant
    if func == "count":
        n = sum(1 for x in before[1:] if x == before[0])
        return rate_constant * (1.0 + n)
    if func == "after":
        n = sum(1 for x, y in zip(before, after) if x != y) + sum(1 for x in after[1:] if x == after[0])
        return rate_constant * (0.25 + n)
    h = zlib.crc32(("%i|%i|%s|%s" % (salt, number, "/".join(before), "/".join(after))).encode()) & 0xffffffff
    if func == "gate" and h % 3 == 0:
        return 0.0
    if func == "wide":
        return rate_constant * 10.0 ** ((h % 1000) / 80.0 - 8.0)
    if func == "plus":
        return rate_constant + 0.5 + (h % 97) / 16.0
    return rate_constant * (0.5 + (h % 97) / 16.0)


def ordered(geometry, *lists):
    """The lists sorted by geometry, so that values do not depend on the order of sites at equal distances."""
    idx = sorted(range(len(geometry)), key=lambda i: tuple(round(float(x), 4) + 0.0 for x in geometry[i]))
    first = [i for i in range(len(geometry)) if max(abs(float(x)) for x in geometry[i]) < 1e-6]
    f = first[0] if first else idx[0]
    idx = [f] + [i for i in idx if i != f]
    return [[l[i] for i in idx] for l in lists]


def reference(ref, p, s, conf):
    """The rate the calculator of the model must return for process p at site s."""
    c = ref.spec["calc"]
    rels, sites, before, after = ref.surroundings(p, s, conf)
    sb, sa = ordered(rels, before, after)
    return value(c["func"], c["salt"], p.number, p.rate, sb, sa)


def make(spec_calc, log=None):
    """Calculator class for spec['calc']; calls are appended to log when given."""
    c = spec_calc

    class Calc(KMCRateCalculatorPlugin):
        calls = 0

        def initialize(self):
            self.log = log

        def rate(self, geometry, elements_before, elements_after, rate_constant, process_number, global_coordinate):
            Calc.calls += 1
            before = [content(x) for x in elements_before]
            after = [content(x) for x in elements_after]
            if c.get("raw"):
                sb, sa = before, after
            else:
                sb, sa = ordered(geometry, before, after)
            v = value(c["func"], c["salt"], process_number, rate_constant, sb, sa)
            if log is not None:
                log.append((tuple(tuple(float(x) for x in g) for g in geometry), tuple(before), tuple(after),
                            rate_constant, process_number, tuple(global_coordinate), v))
            return v

        def cutoff(self):
            return c["cutoff"]

        def cacheRates(self):
            return c["cache"]

        def excludeFromCaching(self):
            return tuple(c["exclude"])

    return Calc
