"""C07: site numbering, neighbour sets and wrapping are exact."""
import itertools
import random

import numpy

import KMCLib
from KMCLib.Backend import Backend
from kmcv import gen
from kmcv.geom import Lattice

QUICK, THOROUGH = 500, 6000


def cases(tier, seed, variant):
    n = QUICK if tier == "quick" else THOROUGH
    for i in range(n):
        yield {"kind": "lattice", "seed": "%d-c07-%d" % (seed, i)}
    for i in range(n // 10):
        yield {"kind": "large", "seed": "%d-c07l-%d" % (seed, i)}
    for i in range(n // 5):
        yield {"kind": "config", "seed": "%d-c07c-%d" % (seed, i)}


def random_lattice(rng, small=True):
    basis = [list(b) for b in rng.choice(gen.BASES)]
    if rng.random() < 0.3:
        basis = [[rng.random() * 0.999 for _ in range(3)] for _ in range(rng.randint(1, 7))]
    if small and rng.random() < 0.12:
        # longer than a byte counts, now and then a short
        basis = basis[:2]
        reps = [1, 1, 1]
        reps[rng.randrange(3)] = rng.choice([128, 130, 200, 256, 257, 300])
        if rng.random() < 0.3:
            reps[rng.randrange(3)] = 130
            basis = basis[:1]
        if rng.random() < 0.08:
            reps = [1, 1, 1]
            reps[rng.randrange(3)] = 33000
            basis = basis[:1]
    elif small:
        reps = [rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 9]) for _ in range(3)]
        while len(basis) * reps[0] * reps[1] * reps[2] > 600:
            reps[rng.randrange(3)] = rng.choice([1, 2, 3])
    else:
        reps = [rng.choice([1, 2, 7, 49, 100, 333, 1000]) for _ in range(3)]
        while len(basis) * reps[0] * reps[1] * reps[2] > 2 ** 30:
            reps[rng.randrange(3)] = rng.choice([2, 7, 10])
    per = [rng.random() < 0.6 for _ in range(3)]
    return basis, reps, per


class Big(Lattice):
    """The reference numbering without a table of all sites."""

    def __init__(self, nb, reps, per):
        self.nb, self.reps, self.per = nb, tuple(reps), tuple(per)
        self.n = nb * reps[0] * reps[1] * reps[2]
        self.basis = [(0.0, 0.0, 0.0)] * nb

    def cell(self, s):
        c, b = divmod(s, self.nb)
        ij, k = divmod(c, self.reps[2])
        i, j = divmod(ij, self.reps[1])
        return i, j, k, b

    def neighbourhood(self, s, shells):
        i, j, k, b = self.cell(s)
        out = set()
        r = range(-shells, shells + 1)
        for di, dj, dk in itertools.product(r, r, r):
            for b2 in range(self.nb):
                t = self.index(i + di, j + dj, k + dk, b2)
                if t is not None:
                    out.add(t)
        return out


def check_map(ctx, m, lat, rng, sites):
    ctx.expect(m.nBasis() == lat.nb and (m.repetitionsA(), m.repetitionsB(), m.repetitionsC()) == tuple(lat.reps)
               and (m.periodicA(), m.periodicB(), m.periodicC()) == tuple(lat.per), "the map does not describe the lattice")
    for s in sites:
        i, j, k, b = lat.cell(s)
        ctx.expect(m.basisSiteFromIndex(s) == b, "site %d: basis %s instead of %d" % (s, m.basisSiteFromIndex(s), b))
        got = [int(x) for x in m.indicesFromCell(i, j, k)]
        ctx.expect(s in got and got == list(range(s - b, s - b + lat.nb)), "cell %s holds %s, not the sites of site %d" % ((i, j, k), got, s))
        fit = [n for n in (0, 1, 2, 3) if (2 * n + 1) ** 3 * lat.nb < 2000]
        for n in rng.sample(fit, min(2, len(fit))):
            nb = [int(x) for x in m.neighbourIndices(s, n)]
            want = lat.neighbourhood(s, n)
            ctx.count("neighbourhoods")
            if set(nb) != want:
                ctx.violation("site %d of %s %s %s: neighbours within %d shells: missing %s, unexpected %s" % (
                    s, lat.nb, lat.reps, lat.per, n, sorted(want - set(nb))[:6], sorted(set(nb) - want)[:6]))
            ctx.expect(len(nb) == len(want), "site %d: a neighbour within %d shells is listed more than once" % (s, n))
            if any(p and 2 * n + 1 > r for p, r in zip(lat.per, lat.reps)):
                ctx.count("neighbourhoods_wider_than_the_lattice")
            ctx.seen(lat.reps, lat.per, lat.nb, s, n)
        if 1 in fit:
            ctx.expect([int(x) for x in m.neighbourIndices(s)] == [int(x) for x in m.neighbourIndices(s, 1)],
                       "neighbours of site %d without and with the default number of shells differ" % s)
        # moves by cells
        mv = [rng.randint(-r, r) if p else rng.randint(-c, r - 1 - c) for p, r, c in zip(lat.per, lat.reps, (i, j, k))]
        b2 = rng.randrange(lat.nb)
        t = lat.index(i + mv[0], j + mv[1], k + mv[2], b2)
        if all(-r <= c + x < 2 * r for r, c, x in zip(lat.reps, (i, j, k), mv)):
            got = m.indexFromMoveInfo(s, mv[0], mv[1], mv[2], b2 - b)
            ctx.expect(got == t, "moving from site %d by cells %s to basis %d gives %s instead of %s" % (s, mv, b2, got, t))
            ctx.count("cell_moves")
    for _ in range(6):
        some = [rng.choice(sites) for _ in range(rng.randint(0, 5))]
        n = rng.choice(fit)
        want = set()
        for s in some:
            want |= lat.neighbourhood(s, n)
        got = [int(x) for x in m.supersetNeighbourIndices(Backend.StdVectorInt(some), n)]
        ctx.expect(got == sorted(want), "the neighbourhood of sites %s within %d shells is not the sorted union" % (some, n))
        ctx.count("unions")


def check_wrap(ctx, m, lat, rng):
    for _ in range(60):
        v = [0.0] * 3
        for d in range(3):
            r = lat.reps[d]
            w = rng.random()
            if w < 0.5:
                v[d] = rng.uniform(-r * 0.999, r * 0.999)
            elif w < 0.8:
                v[d] = rng.choice([-1, 1]) * (r / 2.0 + rng.choice([0.0, 1e-12, -1e-12, 1e-4, -1e-4, 0.01, -0.01]))
            else:
                v[d] = float(rng.randint(-r + 1, r - 1)) if r > 1 else 0.0
        c = Backend.Coordinate(*v)
        which = None
        if rng.random() < 0.5:
            m.wrap(c)
            wrapped = list(lat.per)
        else:
            which = rng.randrange(3)
            if not lat.per[which]:
                continue
            m.wrap(c, which)
            wrapped = [d == which for d in range(3)]
        for d in range(3):
            x, y, r = v[d], c[d], lat.reps[d]
            if not wrapped[d]:
                ctx.expect(x == y, "wrapping %s changed the open direction %d" % (v, d))
                continue
            k = (x - y) / r
            if abs(k - round(k)) > 1e-9 or abs(y) > r / 2.0 + 2e-5:
                ctx.violation("wrapping %s over the periods %s (%s) gives %s" % (v, lat.reps, lat.per, [c[0], c[1], c[2]]))
        ctx.count("wraps")


def run_case(ctx, case):
    rng = random.Random(case["seed"])
    if case["kind"] == "large":
        basis, reps, per = random_lattice(rng, False)
        lat = Big(len(basis), reps, per)
        m = Backend.LatticeMap(lat.nb, Backend.StdVectorInt(reps), Backend.StdVectorBool(per))
        sites = [rng.randrange(lat.n) for _ in range(12)] + [0, lat.n - 1]
        # last and first sites of slabs and rows
        for _ in range(8):
            i, j, k = [rng.choice([0, r - 1, rng.randrange(r)]) for r in reps]
            sites.append(lat.index(i, j, k, rng.randrange(lat.nb)))
        check_map(ctx, m, lat, rng, sites)
        ctx.count("large_lattices")
        return
    basis, reps, per = random_lattice(rng)
    lat = Lattice({"basis": basis, "reps": reps, "periodic": per})
    cell = rng.choice(gen.CELLS)
    uc = KMCLib.KMCUnitCell(cell_vectors=cell, basis_points=basis)
    lattice = KMCLib.KMCLattice(unit_cell=uc, repetitions=tuple(reps), periodic=tuple(per))
    # an unrelated map in between must not matter
    other = Backend.LatticeMap(rng.randint(1, 9), Backend.StdVectorInt((2, 3, 1)), Backend.StdVectorBool((True, False, True)))
    if case["kind"] == "config":
        return config(ctx, rng, lat, lattice, uc, cell)
    got = lattice.sites()
    ctx.expect(len(got) == lat.n, "%d sites instead of %d" % (len(got), lat.n))
    for s in range(min(lat.n, len(got))):
        c = lat.coord(s)
        i, j, k, b = lat.cell(s)
        if max(abs(float(got[s][d]) - c[d]) for d in range(3)) > 1e-12:
            ctx.violation("site %d is at %s instead of %s" % (s, list(got[s]), c))
        ctx.expect(lattice._globalIndex(i, j, k, b) == s, "the index of cell %s basis %d is %s, not %d" % ((i, j, k), b, lattice._globalIndex(i, j, k, b), s))
    ctx.expect([list(map(float, b)) for b in lattice.basis()] == basis, "basis points changed")
    ctx.expect(tuple(lattice.repetitions()) == tuple(reps) and tuple(lattice.periodic()) == tuple(per), "lattice parameters changed")
    ctx.count("sites", lat.n)
    m = lattice._map()
    sites = list(range(lat.n)) if lat.n <= 40 else sorted(rng.sample(range(lat.n), 38)) + [0, lat.n - 1]
    check_map(ctx, m, lat, rng, sites)
    check_wrap(ctx, m, lat, rng)


def config(ctx, rng, lat, lattice, uc, cell):
    """Types end up at, and are reported for, the position they were given for."""
    names = ["A", "B", "C", "D"]
    types = [rng.choice(names) for _ in range(lat.n)]
    common = max(set(types), key=types.count)
    long = [lat.cell(s) + (types[s],) for s in range(lat.n) if types[s] != common or rng.random() < 0.1]
    rng.shuffle(long)
    if not long:
        long = [lat.cell(0) + (types[0],)]
    a = KMCLib.KMCConfiguration(lattice=lattice, types=list(types), possible_types=names)
    b = KMCLib.KMCConfiguration(lattice=lattice, types=long, possible_types=names, default_type=common)
    for name, conf in (("short", a), ("long", b)):
        ctx.expect(list(conf.types()) == types, "types given in the %s format: sites hold other types than given" % name)
        ctx.expect(conf.sites().shape == (lat.n, 3), "sites() has shape %s" % (conf.sites().shape,))
        be = conf._backend()
        placed = be.coordinates()
        for s in range(lat.n):
            c = placed[s]
            if max(abs(c[d] - lat.coord(s)[d]) for d in range(3)) > 1e-12:
                ctx.violation("the backend places site %d at %s instead of %s" % (s, [c[0], c[1], c[2]], lat.coord(s)))
                break
        counts = conf.particlesPerType()
        pt = conf.possibleTypes()
        ctx.expect({t: int(counts[pt[t]]) for t in names} == {t: types.count(t) for t in names}, "wrong counts of the types given in the %s format" % name)
    v = [[rng.uniform(-9, 9) for _ in range(3)] for _ in range(5)]
    got = uc.transformToCartesian(numpy.array(v))
    for x, y in zip(v, got):
        want = [sum(x[r] * cell[r][d] for r in range(3)) for d in range(3)]
        ctx.expect(max(abs(want[d] - y[d]) for d in range(3)) < 1e-9, "fractional %s is Cartesian %s instead of %s" % (x, list(y), want))
    # the surroundings of a site as the simulation sees them: which site, where, how far
    be = a._backend()
    be.initMatchLists(lattice._map(), 1)
    if any(p and r < 3 for p, r in zip(lat.per, lat.reps)):
        return
    for s in rng.sample(range(lat.n), min(lat.n, 10)):
        want = {}
        i, j, k, b0 = lat.cell(s)
        for t in lat.neighbourhood(s, 1):
            x, y = lat.coord(t), lat.coord(s)
            want[t] = lat.wrap(tuple(x[d] - y[d] for d in range(3)))
        l = be.configMatchList(s)
        got = {}
        last = -1.0
        for e in l:
            got[e.index] = (e.x, e.y, e.z)
            d = (e.x ** 2 + e.y ** 2 + e.z ** 2) ** 0.5
            ctx.expect(abs(d - e.distance) < 1e-9, "a neighbour of site %d at %s has distance %s" % (s, got[e.index], e.distance))
            ctx.expect(e.distance > last - 2e-5, "the neighbours of site %d are not sorted by distance" % s)
            last = e.distance
        ctx.count("surroundings")
        if set(got) != set(want) or len(l) != len(want):
            ctx.violation("the surroundings of site %d are sites %s instead of %s" % (s, sorted(got), sorted(want)))
        else:
            for t in want:
                if max(abs(want[t][d] - got[t][d]) for d in range(3)) > 1e-6:
                    ctx.violation("site %d is at %s from site %d instead of %s" % (t, got[t], s, want[t]))
                    break
