"""Reference geometry and matching, written from the documentation, independent of the C++ code.

A model is described by a plain dict (see gen.py).  Sites are numbered cell by cell (a slowest),
basis fastest.  Process coordinates are relative to their first entry.
"""
import math
from functools import cmp_to_key

EPS = 1e-5


class Lattice(object):
    def __init__(self, spec):
        self.basis = [tuple(b) for b in spec["basis"]]
        self.reps = tuple(spec["reps"])
        self.per = tuple(spec["periodic"])
        self.nb = len(self.basis)
        self.n = self.nb * self.reps[0] * self.reps[1] * self.reps[2]
        self._cell = []
        for i in range(self.reps[0]):
            for j in range(self.reps[1]):
                for k in range(self.reps[2]):
                    for b in range(self.nb):
                        self._cell.append((i, j, k, b))

    def index(self, i, j, k, b):
        """Site number of a (possibly out of range) cell and basis position, or None beyond an open edge."""
        c = []
        for x, n, p in zip((i, j, k), self.reps, self.per):
            if not 0 <= x < n:
                if not p:
                    return None
                x %= n
            c.append(x)
        return ((c[0] * self.reps[1] + c[1]) * self.reps[2] + c[2]) * self.nb + b

    def cell(self, s):
        return self._cell[s]

    def coord(self, s):
        c = self._cell[s]
        return tuple(c[d] + self.basis[c[3]][d] for d in range(3))

    def locate(self, b, rel):
        """(di,dj,dk,b2) of the position at displacement rel from basis position b, or None if there is no lattice site."""
        for b2 in range(self.nb):
            off = []
            for d in range(3):
                x = self.basis[b][d] + rel[d] - self.basis[b2][d]
                r = int(round(x))
                if abs(x - r) > 2e-5:
                    break
                off.append(r)
            else:
                return (off[0], off[1], off[2], b2)
        return None

    def wrap(self, v):
        """The equivalent displacement, half a period counting as negative."""
        out = []
        for x, n, p in zip(v, self.reps, self.per):
            while p and x >= n / 2.0 - EPS:
                x -= n
            while p and x < -n / 2.0 - EPS:
                x += n
            out.append(x)
        return tuple(out)

    def rel(self, b, off):
        return tuple(off[d] + self.basis[off[3]][d] - self.basis[b][d] for d in range(3))

    def neighbourhood(self, s, shells):
        """Sites of the cells within the given number of shells, as a set."""
        i, j, k, b = self._cell[s]
        out = set()
        for di in range(-shells, shells + 1):
            for dj in range(-shells, shells + 1):
                for dk in range(-shells, shells + 1):
                    for b2 in range(self.nb):
                        t = self.index(i + di, j + dj, k + dk, b2)
                        if t is not None:
                            out.add(t)
        return out


def norm(v):
    return math.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def _cmp(a, b):
    da, db = a[0], b[0]
    if abs(da - db) >= EPS:
        return -1 if da < db else 1
    for x, y in zip(a[1], b[1]):
        if abs(x - y) > 1e-7:
            return -1 if x < y else 1
    return 0


dist_key = cmp_to_key(_cmp)


def exact_range(lat, rels_per_basis):
    """Largest cell offset among (basis, rel) pairs."""
    r = 0
    for b, rel in rels_per_basis:
        for d in range(3):
            r = max(r, abs(int(math.floor(lat.basis[b][d] + rel[d] + EPS))))
    return r


def trunc_range(rels):
    """The number of shells a process asks for on its own."""
    r = 1
    for rel in rels:
        for x in rel:
            r = max(r, int(-x + 0.99999) if x < 0 else int(x))
    return r


def show(c):
    """Normal form of the contents of a site (as in calc.content)."""
    if isinstance(c, str):
        return c
    return ",".join("%i%s" % (n, t) for t, n in sorted(c.items()) if n != 0)


class Process(object):
    """One process of a spec, resolved against a lattice."""

    def __init__(self, lat, spec, p, number):
        self.number = number
        self.lat = lat
        self.bucket = spec["mode"] == "bucket"
        c0 = p["coords"][0]
        self.rels = [tuple(c[d] - c0[d] for d in range(3)) for c in p["coords"]]
        self.bsites = [b for b in p["bsites"] if b < lat.nb]
        self.rate = p["rate"]
        self.moves = p.get("moves")
        if self.bucket:
            self.need, self.delta = [], []
            for m, u in zip(p["match"], p["update"]):
                wild = any(t == "*" for n, t in m)
                nd, dl = {}, {}
                for n, t in m:
                    if t != "*":
                        nd[t] = nd.get(t, 0) + n
                for n, t in u:
                    if t != "*":
                        dl[t] = dl.get(t, 0) + n
                self.need.append(None if wild else nd)
                self.delta.append(dl)
        else:
            self.before = list(p["before"])
            self.after = list(p["after"])
        # implied moves: exactly two sites exchange their types
        if not self.bucket and self.moves is None:
            ch = [i for i in range(len(self.before)) if self.before[i] != self.after[i]]
            if (len(ch) == 2 and self.before[ch[0]] == self.after[ch[1]]
                    and self.before[ch[1]] == self.after[ch[0]]):
                a, b = ch
                self.moves = [[a, [self.rels[b][d] - self.rels[a][d] for d in range(3)]],
                              [b, [self.rels[a][d] - self.rels[b][d] for d in range(3)]]]
        self.moves = self.moves or []
        # offsets per basis site
        self.offs = {b: [lat.locate(b, r) for r in self.rels] for b in self.bsites}
        # where each moved entry goes, as entry index
        self.dest = {}
        for i, v in self.moves:
            t = tuple(self.rels[i][d] + v[d] for d in range(3))
            for j, r in enumerate(self.rels):
                if max(abs(t[d] - r[d]) for d in range(3)) < 1e-4:
                    self.dest[i] = j

    def is_wild(self, e):
        return (self.need[e] is None) if self.bucket else (self.before[e] == "*")

    def sites_at(self, s):
        """Lattice site of each entry when performed at s (None: no such site)."""
        i, j, k, b = self.lat.cell(s)
        return [None if o is None else self.lat.index(i + o[0], j + o[1], k + o[2], o[3]) for o in self.offs[b]]

    def ok(self, e, content):
        if self.bucket:
            nd = self.need[e]
            if nd is None:
                return True
            return all(content.get(t, 0) >= n for t, n in nd.items())
        return self.before[e] == "*" or self.before[e] == content


class Reference(object):
    """Fresh matching of a configuration, straight from the description of the model."""

    def __init__(self, spec):
        self.spec = spec
        self.lat = Lattice(spec)
        self.bucket = spec["mode"] == "bucket"
        self.procs = [Process(self.lat, spec, p, i) for i, p in enumerate(spec["procs"])]
        self._at = {}
        for p in self.procs:
            for s in range(self.lat.n):
                if self.lat.cell(s)[3] in p.offs:
                    self._at[(p.number, s)] = p.sites_at(s)
        # Which processes can be affected by an open edge (documented as-is behaviour, see known findings).
        r = 1
        for p in self.procs:
            r = max(r, trunc_range(p.rels), exact_range(self.lat, [(b, x) for b in p.bsites for x in p.rels]))
        calc = spec.get("calc")
        if calc:
            cut = calc["cutoff"] if calc["cutoff"] is not None else 1.0
            for p in self.procs:
                c = max([cut] + [norm(x) for x in p.rels])
                r = max(r, int(cut))
                for b in p.bsites:
                    for b2 in range(self.lat.nb):
                        for d in range(3):
                            dx = abs(self.lat.basis[b][d] - self.lat.basis[b2][d])
                            r = max(r, int(math.floor(c + dx + EPS)))
        self.range = r
        self._asis = {}
        self._site_list = {}
        self._plist = {}
        self._within = {}

    # -- ideal semantics -----------------------------------------------------------------
    def available(self, p, s, conf):
        at = self._at.get((p.number, s))
        if at is None:
            return False
        for e, t in enumerate(at):
            if t is None:
                if p.is_wild(e):
                    continue
                return False
            if not p.ok(e, conf[t]):
                return False
        return True

    def enabled(self, conf):
        out = []
        for p in self.procs:
            out.append([s for s in range(self.lat.n) if self.available(p, s, conf)])
        return out

    # -- the list-by-list matching the library performs at open edges ----------------------
    def site_list(self, s):
        """Sites around s in order of distance: [(dist, rel, site)]"""
        l = self._site_list.get(s)
        if l is None:
            lat = self.lat
            i, j, k, b = lat.cell(s)
            l, seen = [], set()
            r = self.range
            for di in range(-r, r + 1):
                for dj in range(-r, r + 1):
                    for dk in range(-r, r + 1):
                        for b2 in range(lat.nb):
                            t = lat.index(i + di, j + dj, k + dk, b2)
                            if t is not None and t not in seen:
                                seen.add(t)
                                rel = lat.wrap(lat.rel(b, (di, dj, dk, b2)))
                                l.append((norm(rel), rel, t))
            l.sort(key=dist_key)
            self._site_list[s] = l
        return l

    def proc_list(self, p):
        """Entries of the process in matching order, None for an inserted wildcard: [(rel, entry)]"""
        l = self._plist.get(p.number)
        if l is None:
            ent = sorted([(norm(r), r, e) for e, r in enumerate(p.rels)], key=dist_key)
            if self.spec["implicit"] and len(p.bsites) == 1:
                lat = self.lat
                s = lat.index(lat.reps[0] // 2, lat.reps[1] // 2, lat.reps[2] // 2, p.bsites[0])
                around = self.site_list(s)
                l, k = [], 0
                for d, rel, t in around:
                    if k == len(ent):
                        break
                    if max(abs(rel[x] - ent[k][1][x]) for x in range(3)) < 2e-5:
                        l.append((ent[k][1], ent[k][2]))
                        k += 1
                    else:
                        l.append((rel, None))
                # entries which have no counterpart around the central cell
                for x in ent[k:]:
                    l.append((x[1], x[2]))
            else:
                l = [(r, e) for d, r, e in ent]
            self._plist[p.number] = l
        return l

    def as_is(self, p, s, conf):
        if (p.number, s) not in self._at:
            return False
        pl, sl = self.proc_list(p), self.site_list(s)
        if len(sl) < len(pl):
            return False
        for (rel, e), (d, rel2, t) in zip(pl, sl):
            if e is None or p.is_wild(e):
                continue
            if max(abs(rel[x] - rel2[x]) for x in range(3)) > 2e-5 or not p.ok(e, conf[t]):
                return False
        return True

    def cut(self, p, s):
        """True if an open edge removes positions the matching list of the process runs over."""
        key = (p.number, s)
        c = self._asis.get(key)
        if c is None:
            pl, sl = self.proc_list(p), self.site_list(s)
            c = len(sl) < len(pl) or any(max(abs(a[0][x] - b[1][x]) for x in range(3)) > 2e-5 for a, b in zip(pl, sl))
            self._asis[key] = c
        return c

    # -- effect of an event ------------------------------------------------------------------
    def apply(self, p, s, conf):
        """Configuration after performing p at s (site contents; dicts of counts for buckets)."""
        new = list(conf)
        for e, t in enumerate(self._at[(p.number, s)]):
            if t is None:
                continue
            if self.bucket:
                if p.delta[e]:
                    c = dict(new[t])
                    for ty, n in p.delta[e].items():
                        c[ty] = c.get(ty, 0) + n
                    new[t] = {ty: n for ty, n in c.items() if n != 0}
            elif p.before[e] != p.after[e]:
                new[t] = p.after[e]
        return new

    def apply_as_is(self, p, s, conf):
        """The same with the entries taken to the sites the matching pairs them with."""
        new = list(conf)
        for (rel, e), (d, rel2, t) in zip(self.proc_list(p), self.site_list(s)):
            if e is None:
                continue
            if self.bucket:
                if p.delta[e]:
                    c = dict(new[t])
                    for ty, n in p.delta[e].items():
                        c[ty] = c.get(ty, 0) + n
                    new[t] = {ty: n for ty, n in c.items() if n != 0}
            elif p.before[e] != p.after[e]:
                new[t] = p.after[e]
        return new

    # -- what a custom rate calculator must be shown -------------------------------------------
    def within(self, s, cutoff):
        """[(dist, rel, site)] of all sites within the cutoff of s, nearest first (order of ties unspecified)."""
        key = (s, cutoff)
        l = self._within.get(key)
        if l is None:
            c = self.lat.coord(s)
            l = []
            for t in range(self.lat.n):
                x = self.lat.coord(t)
                rel = self.lat.wrap(tuple(x[d] - c[d] for d in range(3)))
                d = norm(rel)
                if d <= cutoff + EPS:
                    l.append((d, rel, t))
            l.sort(key=dist_key)
            self._within[key] = l
        return l

    def cutoff(self, p):
        """Distance up to which the surroundings of p matter for its rate."""
        c = self.spec["calc"]["cutoff"]
        return max([1.0 if c is None else c] + [norm(r) for r in p.rels])

    def surroundings(self, p, s, conf):
        """(rels, sites, before, after) for a custom rate; contents in calc.content form."""
        near = self.within(s, self.cutoff(p))
        new = self.apply(p, s, conf)
        rels = [x[1] for x in near]
        sites = [x[2] for x in near]
        return rels, sites, [show(conf[t]) for t in sites], [show(new[t]) for t in sites]

    def at(self, p, s):
        return self._at[(p.number, s)]
