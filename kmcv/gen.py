"""Random model descriptions (plain dicts, JSON-able) and their realisation through the public API."""
import math
import random

from kmcv.geom import Lattice, norm, dist_key

BASES = [
    [[0.0, 0.0, 0.0]],
    [[0.0, 0.0, 0.0]],
    [[0.1, 0.2, 0.3]],
    [[0.9, 0.5, 0.75]],
    [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]],
    [[0.0, 0.0, 0.0], [0.5, 0.5, 0.0], [0.5, 0.0, 0.5], [0.0, 0.5, 0.5]],
    [[1.0 / 3.0, 2.0 / 3.0, 0.0], [2.0 / 3.0, 1.0 / 3.0, 0.5]],
    [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25]],
    [[0.7, 0.0, 0.0], [0.2, 0.0, 0.0]],
    [[0.05, 0.4, 0.95], [0.6, 0.9, 0.15], [0.35, 0.1, 0.5]],
    [[0.05, 0.1, 0.1], [0.55, 0.1, 0.1], [0.05, 0.1, 0.6]],
]
CELLS = [
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    [[2.5, 0.0, 0.0], [0.0, 3.25, 0.0], [0.0, 0.0, 1.5]],
    [[2.8, 0.0, 0.0], [1.4, 2.4249, 0.0], [0.3, 0.2, 4.1]],
    [[0.0, 2.0, 2.0], [2.0, 0.0, 2.0], [2.0, 2.0, 0.0]],
]
NAMES = [["A", "B", "V"], ["B", "A"], ["Ox", "V", "CO", "X1"], ["a", "b", "c", "d", "e"], ["V", "A", "H2O"]]


def _lattice(rng, shells, open_ok=True, max_sites=160, basis=None, least=0, short_ok=True):
    short = rng.random() < 0.2 and short_ok
    for _ in range(200):
        dim = rng.choice([1, 1, 2, 2, 2, 3])
        bs = basis if basis is not None else rng.choice(BASES)
        axes = rng.sample([0, 1, 2], dim)
        reps, per = [1, 1, 1], [False, False, False]
        for a in axes:
            p = (not open_ok) or rng.random() < 0.7
            lo = max(2 * shells + 1, least) if p else rng.choice([2, 3, 2 * shells + 1])
            if p and short and rng.random() < 0.6:
                # fewer cells than the processes reach over
                lo = rng.choice([1, 2, 2, 3])
                reps[a], per[a] = rng.choice([lo, lo, lo + 1, 2 * shells]), True
                continue
            hi = {1: 14, 2: 7, 3: 5}[dim]
            reps[a] = rng.randint(lo, max(lo, hi))
            per[a] = p
        n = len(bs) * reps[0] * reps[1] * reps[2]
        if 2 <= n <= max_sites:
            return [list(b) for b in bs], reps, per
    return [[0.0, 0.0, 0.0]], [max(2 * shells + 3, least), 1, 1], [True, False, False]


def neighbours(lat, b, shells, axes_open):
    """Offsets around basis position b: [(dist, rel, off)] without the position itself."""
    out = []
    rr = [range(-shells, shells + 1) if n > 1 else (0,) for n in lat.reps]
    for di in rr[0]:
        for dj in rr[1]:
            for dk in rr[2]:
                for b2 in range(lat.nb):
                    if (di, dj, dk, b2) == (0, 0, 0, b):
                        continue
                    r = lat.rel(b, (di, dj, dk, b2))
                    # a displacement of half a period or more is ambiguous
                    if any(lat.per[d] and abs(r[d]) > lat.reps[d] / 2.0 - 1e-4 for d in range(3)):
                        continue
                    out.append((norm(r), r, (di, dj, dk, b2)))
    out.sort(key=dist_key)
    return out


def _pick_near(rng, nb, k):
    """k distinct neighbours, near ones preferred."""
    nb = list(nb)
    out = []
    while nb and len(out) < k:
        i = min(int(rng.expovariate(0.35)), len(nb) - 1) if rng.random() < 0.8 else rng.randrange(len(nb))
        out.append(nb.pop(i))
    return out


def _rate(rng, style):
    if style == "flat":
        return rng.choice([1.0, 1.0, 2.0, 0.5, 3.0])
    if style == "wide":
        return 10.0 ** rng.uniform(-6, 8)
    return rng.uniform(0.1, 5.0)


def _coords(rng, lat, b, rels):
    """Write out relative coordinates the way users do: relative, absolute or with limited digits."""
    w = rng.random()
    base = (0.0, 0.0, 0.0)
    if w < 0.35:
        base = lat.basis[b]
    elif w < 0.5:
        base = tuple(rng.choice([1.0, 2.0, -3.0, 7.25]) for _ in range(3))
    cs = [[float(base[d] + r[d]) for d in range(3)] for r in rels]
    if rng.random() < 0.2:
        cs = [[round(x, 6) for x in c] for c in cs]
    elif rng.random() < 0.25:
        # rounding in calculated coordinates
        cs = [[x + rng.choice([0.0, 1e-9, -1e-9, 2e-7, -2e-7]) for x in c] for c in cs]
    return cs


def plain_process(rng, lat, b, nbs, types, style, wild_ok, kind=None):
    kind = kind or rng.choice(["flip", "hop", "hop", "hop", "swap", "chain", "pair", "react", "env"])
    if kind != "flip" and not nbs:
        kind = "flip"
    A = rng.choice(types)
    B = rng.choice([t for t in types if t != A])
    moves = None
    rels = [(0.0, 0.0, 0.0)]
    if kind == "flip":
        before, after = [A], [B]
    elif kind in ("hop", "swap", "env"):
        n = _pick_near(rng, nbs, 1)
        rels.append(n[0][1])
        before, after = [A, B], [B, A]
        if rng.random() < 0.5:
            v = list(n[0][1])
            moves = [[0, v], [1, [-x for x in v]]]
            if rng.random() < 0.3:
                moves.reverse()
    elif kind == "pair":
        n = _pick_near(rng, nbs, 1)
        rels.append(n[0][1])
        before, after = [A, A], [B, B]
    elif kind == "react":
        n = _pick_near(rng, nbs, 1)
        rels.append(n[0][1])
        before = [A, B]
        after = [rng.choice(types), rng.choice(types)]
        if before == after or (after == [B, A]):
            after = [B, B]
    else:  # chain: a cyclic move over three or four sites, neighbours may share their type
        k = rng.choice([2, 2, 3])
        n = _pick_near(rng, nbs, k)
        rels += [x[1] for x in n]
        m = len(rels)
        before = [A] + [rng.choice([A, B]) for _ in range(m - 1)]
        if len(set(before)) == 1:
            before[-1] = B
        after = [before[i - 1] for i in range(m)]
        if before == after:
            before = [A] * (m - 1) + [B]
            after = [before[i - 1] for i in range(m)]
        moves = [[i, [rels[(i + 1) % m][d] - rels[i][d] for d in range(3)]] for i in range(m)]
        rng.shuffle(moves)
    # surroundings the event depends on
    used = [tuple(round(x, 5) for x in r) for r in rels]
    extra = [n for n in nbs if tuple(round(x, 5) for x in n[1]) not in used]
    if kind in ("env", "flip", "hop") and extra and rng.random() < (1.0 if kind == "env" else 0.35):
        for n in _pick_near(rng, extra, rng.choice([1, 1, 2, 3])):
            rels.append(n[1])
            t = "*" if (wild_ok and rng.random() < 0.3) else rng.choice(types)
            before.append(t)
            after.append(t)
    # a random order of the entries other than the first
    order = list(range(1, len(rels)))
    rng.shuffle(order)
    order = [0] + order
    inv = {o: i for i, o in enumerate(order)}
    p = {
        "coords": _coords(rng, lat, b, [rels[o] for o in order]),
        "before": [before[o] for o in order], "after": [after[o] for o in order],
        "moves": None, "bsites": [b], "rate": _rate(rng, style),
    }
    if moves is not None:
        p["moves"] = [[inv[i], v] for i, v in moves]
    return p


def reverse_process(p, rate):
    q = dict(p)
    q["before"], q["after"], q["moves"], q["rate"] = p["after"], p["before"], None, rate
    # keep move vectors out: the reverse move is implied for exchanges and absent otherwise
    return q


def complete_process(rng, lat, nbs, types, style, bsites):
    """A process that names every site up to some distance (matching without implicit wildcards)."""
    shells = []
    for n in nbs:
        if not shells or n[0] - shells[-1][0] > 1e-4:
            shells.append([n[0], 0])
        shells[-1][1] += 1
    k, tot = 0, 0
    while k < len(shells) and tot + shells[k][1] <= 12 and rng.random() < 0.75:
        tot += shells[k][1]
        k += 1
    named = nbs[:tot]
    rels = [(0.0, 0.0, 0.0)] + [n[1] for n in named]
    A = rng.choice(types)
    B = rng.choice([t for t in types if t != A])
    before = [A] + ["*"] * tot
    after = [B] + ["*"] * tot
    if tot and rng.random() < 0.7:
        j = rng.randrange(1, tot + 1)
        before[j], after[j] = B, A
    for j in range(1, tot + 1):
        if before[j] == "*" and rng.random() < 0.2:
            before[j] = after[j] = rng.choice(types)
    order = list(range(1, len(rels)))
    rng.shuffle(order)
    order = [0] + order
    return {"coords": _coords(rng, lat, bsites[0], [rels[o] for o in order]),
            "before": [before[o] for o in order], "after": [after[o] for o in order],
            "moves": None, "bsites": list(bsites), "rate": _rate(rng, style)}


def bucket_process(rng, lat, b, nbs, types, style, wild_ok=True):
    kind = rng.choice(["conv", "hop", "hop", "hop", "react", "create", "destroy", "env"])
    if not nbs and kind in ("hop", "react", "env"):
        kind = "conv"
    A = rng.choice(types)
    B = rng.choice([t for t in types if t != A])
    rels = [(0.0, 0.0, 0.0)]
    k = rng.choice([1, 1, 1, 2])
    if kind == "conv":
        match, update = [[[k, A]]], [[[-k, A], [rng.choice([1, 1, 2]), B]]]
    elif kind == "create":
        match = [[[1, "*"]]] if wild_ok and rng.random() < 0.6 else [[[1, B]]]
        update = [[[1, A]]]
    elif kind == "destroy":
        match, update = [[[k + 1, A]]], [[[-k, A]]]
    elif kind in ("hop", "env"):
        n = _pick_near(rng, nbs, 1)[0]
        rels.append(n[1])
        second = [[1, "*"]] if wild_ok and rng.random() < 0.6 else [[1, rng.choice(types)]]
        match, update = [[[k, A]], second], [[[-k, A]], [[k, A]]]
    else:
        n = _pick_near(rng, nbs, 1)[0]
        rels.append(n[1])
        match, update = [[[1, A]], [[1, B]]], [[[-1, A], [1, B]], [[-1, B], [1, A]]]
    if kind == "env" or (nbs and rng.random() < 0.2):
        used = [tuple(round(x, 5) for x in r) for r in rels]
        extra = [n for n in nbs if tuple(round(x, 5) for x in n[1]) not in used]
        for n in _pick_near(rng, extra, 1):
            rels.append(n[1])
            match.append([[rng.choice([1, 2]), rng.choice(types)]])
            update.append([])
    order = list(range(1, len(rels)))
    rng.shuffle(order)
    order = [0] + order
    return {"coords": _coords(rng, lat, b, [rels[o] for o in order]), "match": [match[o] for o in order],
            "update": [update[o] for o in order], "bsites": [b], "rate": _rate(rng, style)}


def model(rng, mode=None, calc=None, implicit=None, open_ok=True, shells=None, max_sites=160, n_procs=None,
          moves_only=False, basis=None, zero_rates=False, names=None, extreme=None):
    """A random model.

    calc: None, True for a custom rate calculator, or "plus" for one whose rates do not vanish with
    the rate constants (some of which are zero).
    extreme: "types", "procs", "long": a model with more types, processes or cells in a row than small
    integers can count; None to leave it to chance, False for none.
    """
    if extreme is None:
        x = rng.random()
        extreme = "types" if x < 0.02 else "procs" if x < 0.035 and not calc and n_procs is None else "long" if x < 0.055 and max_sites >= 160 and not calc else None
    mode = mode or rng.choice(["plain", "plain", "plain", "bucket"])
    if implicit is None:
        implicit = rng.random() < 0.75
    shells = shells or rng.choice([1, 1, 1, 2])
    cutoff = None
    if calc:
        cutoff = rng.choice([1.0, 1.0, 1.2, 0.8, 1.5, 2.0] if shells > 1 else [1.0, 1.0, 0.8, None, 0.5])
    # shells of cells needed: offsets of the processes, plus what the cutoff reaches
    reach = shells
    bs = basis
    if bs is None:
        bs = rng.choice(BASES)
    spread = max([max(abs(x[d] - y[d]) for d in range(3)) for x in bs for y in bs] or [0.0])
    if calc:
        c = 1.0 if cutoff is None else cutoff
        # processes may reach further than the cutoff and extend it
        reach = max(reach, int(math.floor(c + spread + 1e-5)))
    least = 0 if not calc else int(2 * max(c, 1.0)) + 1
    basis, reps, per = _lattice(rng, reach, open_ok, max_sites, bs, least)
    if extreme == "long":
        reps, per = [1, 1, 1], [False, False, False]
        a = rng.randrange(3)
        reps[a], per[a] = rng.choice([130, 140, 257, 300]), (not open_ok) or rng.random() < 0.7
        basis = basis[:2]
    elif extreme == "procs":
        while len(basis) * reps[0] * reps[1] * reps[2] > 60:
            basis, reps, per = _lattice(rng, 1, open_ok, 60, bs[:2], least)
        n_procs = rng.choice([129, 140, 257, 280])
    lat = Lattice({"basis": basis, "reps": reps, "periodic": per})
    if moves_only and not all(neighbours(lat, b, shells, per) for b in range(lat.nb)):
        basis, reps, per = _lattice(rng, reach, open_ok, max_sites, bs, least, False)
        lat = Lattice({"basis": basis, "reps": reps, "periodic": per})
    types = list(names or rng.choice(NAMES))
    ptypes = list(types)
    rng.shuffle(ptypes)
    if rng.random() < 0.2:
        ptypes.insert(rng.randrange(len(ptypes) + 1), "unused")
    if extreme == "types":
        # more types than bits in a word, now and then than a byte counts
        for i in range(rng.choice([31, 32, 33, 64, 70, 140, 300])):
            ptypes.insert(rng.randrange(len(ptypes) + 1), "x%d" % i)
    style = rng.choice(["flat", "mid", "mid", "wide"])
    spec = {"cell": rng.choice(CELLS), "basis": basis, "reps": reps, "periodic": per, "ptypes": ptypes,
            "mode": mode, "implicit": implicit, "calc": None, "procs": []}
    active = types[:rng.choice([2, 2, 3])]
    np_ = n_procs or rng.randint(2, 7)
    climit = None if not calc else (1.0 if cutoff is None else cutoff)
    while len(spec["procs"]) < np_:
        b = rng.randrange(lat.nb)
        nbs = neighbours(lat, b, shells, per)
        if climit is not None:
            # keep custom-rate processes within what the generous lattice size covers
            nbs = [n for n in nbs if n[0] <= max(climit, 1.0) + 1e-9]
        if mode == "bucket":
            p = bucket_process(rng, lat, b, nbs, active, style, wild_ok=implicit or True)
            if not implicit:
                p["coords"], p["match"], p["update"] = p["coords"][:1], p["match"][:1], p["update"][:1]
                if p["match"] == [[[1, "*"]]]:
                    p["match"] = [[[1, active[0]]]]
                if any(n < 0 and dict((t, m) for m, t in p["match"][0]).get(ty, 0) + n < 0 for n, ty in p["update"][0]):
                    continue
            spec["procs"].append(p)
        elif implicit and rng.random() < 0.85:
            kind = rng.choice(["hop", "swap", "chain", "env"]) if moves_only else None
            p = plain_process(rng, lat, b, nbs, active, style, True, kind)
            if p["before"] == p["after"]:
                continue
            if moves_only and len(p["before"]) < 2:
                continue
            spec["procs"].append(p)
            if len(spec["procs"]) < np_ and p["moves"] is None and not moves_only and rng.random() < 0.6:
                spec["procs"].append(reverse_process(p, _rate(rng, style)))
        else:
            if moves_only and (not implicit or not nbs):
                kind = None
            same = [x for x in range(lat.nb)]
            if rng.random() < 0.5 or lat.nb > 1:
                # only the position itself: any set of basis positions
                A = rng.choice(active)
                B = rng.choice([t for t in active if t != A])
                if moves_only:
                    p = complete_process(rng, lat, nbs, active, style, [b])
                    ch = [i for i in range(len(p["before"])) if p["before"][i] != p["after"][i]]
                    if len(ch) != 2:
                        continue
                else:
                    bsites = rng.sample(same, rng.randint(1, lat.nb))
                    if rng.random() < 0.2:
                        bsites = bsites + [lat.nb + 2]
                    p = {"coords": [[0.0, 0.0, 0.0]], "before": [A], "after": [B], "moves": None,
                         "bsites": bsites, "rate": _rate(rng, style)}
            else:
                p = complete_process(rng, lat, nbs, active, style, [b])
                if moves_only and sum(x != y for x, y in zip(p["before"], p["after"])) != 2:
                    continue
            spec["procs"].append(p)
    if zero_rates and len(spec["procs"]) > 1:
        spec["procs"][rng.randrange(len(spec["procs"]))]["rate"] = 0.0
    # start configuration
    w = [rng.random() + 0.1 for _ in active]
    if mode == "plain":
        spec["types"] = [rng.choices(active, w)[0] for _ in range(lat.n)]
        if len(types) > len(active) and rng.random() < 0.3:
            spec["types"][rng.randrange(lat.n)] = types[-1]
    else:
        spec["types"] = []
        for _ in range(lat.n):
            site = []
            for t in active:
                n = rng.choice([0, 0, 1, 1, 2, 3])
                if n:
                    site.append([n, t])
            spec["types"].append(site)
    if calc:
        spec["calc"] = {"cutoff": cutoff, "cache": rng.random() < 0.4,
                        "exclude": [i for i in range(len(spec["procs"])) if rng.random() < 0.3],
                        "func": rng.choice(["count", "count", "hash", "after", "const"]), "salt": rng.randrange(1 << 20)}
        if calc == "plus":
            spec["calc"]["func"] = "plus"
            for p in spec["procs"]:
                if rng.random() < 0.4:
                    p["rate"] = 0.0
    spec["rng"] = rng.choice(["MT"] * 5 + ["MINSTD", "RANLUX24", "RANLUX48"])
    spec["seed"] = rng.randrange(1, 2 ** 31 - 1)
    return spec


# -- realisation ---------------------------------------------------------------------------------
def realize_config(spec, lattice=None):
    import KMCLib
    if lattice is None:
        uc = KMCLib.KMCUnitCell(cell_vectors=[list(map(float, v)) for v in spec["cell"]],
                                basis_points=[list(map(float, b)) for b in spec["basis"]])
        lattice = KMCLib.KMCLattice(unit_cell=uc, repetitions=tuple(spec["reps"]), periodic=tuple(bool(x) for x in spec["periodic"]))
    if spec["mode"] == "plain":
        types = list(spec["types"])
    else:
        types = [[(n, t) for n, t in site] for site in spec["types"]]
    return KMCLib.KMCConfiguration(lattice=lattice, types=types, possible_types=list(spec["ptypes"]))


def realize_process(spec, p):
    import KMCLib
    if spec["mode"] == "bucket":
        return KMCLib.KMCBucketProcess(coordinates=p["coords"], minimum_match=[[(n, t) for n, t in m] for m in p["match"]],
                                       update=[[(n, t) for n, t in u] for u in p["update"]],
                                       basis_sites=list(p["bsites"]), rate_constant=p["rate"])
    mv = None if p.get("moves") is None else [(i, [float(x) for x in v]) for i, v in p["moves"]]
    return KMCLib.KMCProcess(coordinates=p["coords"], elements_before=list(p["before"]), elements_after=list(p["after"]),
                             move_vectors=mv, basis_sites=list(p["bsites"]), rate_constant=p["rate"])


def realize_interactions(spec, calculator=None):
    import KMCLib
    inter = KMCLib.KMCInteractions(
        processes=[realize_process(spec, p) for p in spec["procs"]], implicit_wildcards=spec["implicit"])
    if calculator is not None:
        inter.setRateCalculator(calculator)
    return inter


def realize(spec, calculator=None):
    import KMCLib
    conf = realize_config(spec)
    inter = realize_interactions(spec, calculator)
    model = KMCLib.KMCLatticeModel(configuration=conf, interactions=inter)
    model.kmcv_configuration = conf     # a handle for the checks, no part of the package
    return model
