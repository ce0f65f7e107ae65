"""Scenarios about patches and cells as values (C29)."""
import json

from common import *  # noqa: F401,F403
from common import geom, afwGeom, np
import confs
from scen_tract import make_tract, load_cases

NOBOX = [BAD]*4
GRID = ("kind", "dx", "dy", "pb", "cw", "ch", "cb", "nci", "ncb")


def desc(o, kind):
    d = dict(idx=IL(o.getIndex(), 2), inner=box(o.getInnerBBox()), outer=box(o.getOuterBBox()), n=[0, 0], cb=0)
    if kind == "patch":
        d["n"] = IL(o.getNumCells(), 2)
        d["cb"] = I(o.getCellBorder())
    return d


NODESC = dict(idx=[BAD, BAD], inner=NOBOX, outer=NOBOX, n=[BAD, BAD], cb=BAD)


def tf(f):
    e, v = call(f)
    return "E" if e else ("T" if v is True or v is np.True_ else "F" if v is False or v is np.False_ else "?")


class Things:
    def __init__(self, R):
        self.R, self.all = R, []

    def add(self, o, kind):
        self.all.append((o, kind))
        return "o%d" % (len(self.all) - 1)

    def take(self, k, o, p, c=None):
        kind = "patch" if c is None else "cell"
        self.R("take", id=self.add(o, kind), k=k, kind=kind, p=list(p), c=list(c or (0, 0)), d=desc(o, kind))

    def cmp(self, i, j):
        (a, ka), (b, kb) = self.all[i], self.all[j]
        if ka != kb:
            return
        self.R("cmp", a="o%d" % i, b="o%d" % j, eq=tf(lambda: a == b), qe=tf(lambda: b == a), ne=tf(lambda: a != b))

    def compare(self, rng, n):
        """n pairs, close ones preferred."""
        N = len(self.all)
        byidx = {}
        for i, (o, k) in enumerate(self.all):
            byidx.setdefault((k, tuple(o.getIndex())), []).append(i)
        groups = [g for g in byidx.values() if len(g) > 1]
        for _ in range(n):
            if groups and rng.random() < 0.75:
                g = rng.choice(groups)
                self.cmp(*rng.sample(g, 2))
            else:
                self.cmp(rng.randrange(N), rng.randrange(N))


def patches_of(rng, t, n, most):
    ps = [(x, y) for x in range(n[0]) for y in range(n[1])] if n[0]*n[1] <= most else \
        [(0, 0), (n[0] - 1, n[1] - 1)] + [(rng.randrange(n[0]), rng.randrange(n[1])) for _ in range(most)]
    return ps


def grab(R, T, rng, k, t, g, most=6, ncell=6):
    n = IL(t.getNumPatches(), 2)
    R("grid", k=k, c={x: g[x] for x in GRID}, n=n)
    for p in patches_of(rng, t, n, most):
        o = t[p]
        T.take(k, o, p)
        if g["kind"] == "cells" and rng.random() < 0.5:
            nc = g["nci"] + 2*g["ncb"]
            for _ in range(ncell):
                c = (rng.randrange(nc), rng.randrange(nc))
                T.take(k, o[c], p, c)


def u_pairs(R, rng, cs):
    for num, x in enumerate(cs):
        T = Things(R)
        with guard(R, json.dumps(x)):
            for k in ("a", "b"):
                g = x[k]
                t, _ = make_tract(g, g["nx"], g["ny"], (0, 0), crval=(rng.uniform(0, 360), rng.uniform(-80, 80)))
                sub = Things(R)
                sub.all = T.all
                grab(R, sub, rng, k, t, g, 9, 8)
            N = len(T.all)
            if N <= 6:
                for i in range(N):
                    for j in range(N):
                        T.cmp(i, j)
            else:
                T.compare(rng, 24)


def suite_pairs(seed, tier, cases):
    """The pairs of grids that TLC enumerated."""
    cs = load_cases(cases)
    rng = rng_for(seed, "samepairs")
    if tier == "quick":
        cs = rng.sample(cs, min(500, len(cs)))
    return [("pairs %d" % i, u_pairs, (cs[i:i + 25],)) for i in range(0, len(cs), 25)]


def rbox(rng, far):
    return [rng.randint(-far, far), rng.randint(-far, far), rng.randint(1, far), rng.randint(1, far)]


def toBox(b):
    return geom.Box2I(geom.Point2I(b[0], b[1]), geom.Extent2I(b[2], b[3]))


def u_direct(R, rng, num):
    """Patches and cells made directly, from a base description with one thing changed."""
    from lsst.skymap import PatchInfo, CellInfo, Index2D
    T = Things(R)
    w = afwGeom.makeSkyWcs(geom.Point2D(1, 2), sp(rng.uniform(0, 360), rng.uniform(-80, 80)),
                           afwGeom.makeCdMatrix(geom.Angle(1.0, geom.arcseconds)), "TAN")
    base = dict(idx=[rng.randint(0, 40), rng.randint(0, 40)], seq=rng.randint(0, 2000), cw=rng.randint(1, 30), cb=rng.randint(0, 9),
                nci=rng.choice([0, 1, 2, 3, 5]), ncb=rng.choice([0, 1, 2]))
    base["ch"] = base["cw"] if rng.random() < 0.5 else rng.randint(1, 30)
    base["inner"] = rbox(rng, rng.choice([10, 1000, 100000]))
    b = base["inner"]
    gs = [rng.randint(0, 50) for _ in range(4)]
    base["outer"] = [b[0] - gs[0], b[1] - gs[1], b[2] + gs[0] + gs[2], b[3] + gs[1] + gs[3]]
    for rep in range(14):
        m = {k: list(v) if isinstance(v, list) else v for k, v in base.items()}
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            f = rng.choice(["idx", "inner", "outer", "cb", "nci", "ncb", "cw", "ch", "seq"])
            if f in ("inner", "outer", "idx"):
                i = rng.randrange(len(m[f]))
                m[f][i] = max(1 if i > 1 else -10**9, m[f][i] + rng.choice([-1, 1, 7, -7]))
                if f == "idx":
                    m[f][i] = abs(m[f][i])
            else:
                m[f] = max(0 if f not in ("cw", "ch") else 1, m[f] + rng.choice([-1, 1]))
        kind = rng.choice(["patch", "patch", "cell"])
        args = rng.choice(["ok"]*9 + ["notIterable", "notTwo"]) if kind == "patch" else "ok"
        idx = rng.choice([Index2D(*m["idx"]), Index2D(x=m["idx"][0], y=m["idx"][1])])
        dims = dict(ok=rng.choice([(m["cw"], m["ch"]), [m["cw"], m["ch"]], geom.Extent2I(m["cw"], m["ch"])]),
                    notIterable=rng.choice([7, 2.5, None]), notTwo=rng.choice([(1,), (1, 2, 3), []]))[args]
        with guard(R, "made %s" % json.dumps(m)):
            if kind == "patch":
                err, o = call(PatchInfo, idx, toBox(m["inner"]), toBox(m["outer"]), m["seq"], w, dims, m["cb"], m["nci"], m["ncb"]) \
                    if rng.random() < 0.5 else \
                    call(PatchInfo, index=idx, innerBBox=toBox(m["inner"]), outerBBox=toBox(m["outer"]), sequentialIndex=m["seq"],
                         tractWcs=w, cellInnerDimensions=dims, cellBorder=m["cb"], numCellsPerPatchInner=m["nci"],
                         numCellsInPatchBorder=m["ncb"])
            else:
                err, o = call(CellInfo, idx, toBox(m["inner"]), toBox(m["outer"]), m["seq"], w)
            d, seq, cd, i = NODESC, BAD, [BAD, BAD], "bad%d" % rep
            if not err:
                i = T.add(o, kind)
                d, seq = desc(o, kind), I(o.getSequentialIndex())
                if kind == "patch":
                    cd = IL([o.getCellInnerDimensions()[0], o.getCellInnerDimensions()[1]], 2)
            R("make", id=i, kind=kind, m=m, args=args, err=err, d=d, seq=seq, cdims=cd)
            if not err and kind == "patch":
                n = m["nci"] + 2*m["ncb"] if m["nci"] else 0
                for _ in range(4):
                    c = (rng.randint(-1, n), rng.randint(-1, n))
                    if n and rng.random() < 0.7:
                        c = (rng.randrange(n), rng.randrange(n))
                    e2, q = call(lambda: o[Index2D(*c)] if rng.random() < 0.5 else o.getCellInfo(c))
                    d2, s2, i2 = NODESC, BAD, "x"
                    if not e2:
                        i2 = T.add(q, "cell")
                        d2, s2 = desc(q, "cell"), I(q.getSequentialIndex())
                    R("part", id=i2, k=i, kind="cell", c=list(c), err=e2, d=d2, seq=s2)
    if T.all:
        T.compare(rng, 60)
    for _ in range(5):
        a = [rng.randint(-5, 10**6), rng.randint(-5, 10**6)]
        a[1] += a[0] == a[1]
        with guard(R, "Index2D"):
            v = rng.choice([lambda: Index2D(*a), lambda: Index2D(x=a[0], y=a[1]), lambda: Index2D(a[0], y=a[1])])()
            R("index", a=a, pair=IL(v, 2), xy=[I(v.x), I(v.y)], eqTuple=bool(v == (a[0], a[1])), hashTuple=hash(v) == hash((a[0], a[1])),
              eqSwapped=bool(v == (a[1], a[0])))


def suite_direct(seed, tier, cases):
    n = 80 if tier == "quick" else 1200
    return [("direct %d" % i, u_direct, (i,)) for i in range(n)]


def u_maps(R, rng, d):
    """Tracts of two maps that differ in one option, and of one map."""
    T = Things(R)
    g = confs.grid_conf(d)
    m = confs.build(d)
    n = len(m)
    with guard(R, "patches of two maps"):
        for i in sorted({rng.randrange(n) for _ in range(3)}):
            grab(R, T, rng, "m%d" % i, m[i], g, 4, 4)
        d2 = json.loads(json.dumps(d))
        sub = d2["sub"]
        if d["tb"] == "legacy":
            f = rng.choice(["b", "x", "y", "s", "none"])
            if f == "b":
                sub["patchBorder"] += 1
            elif f in "xy":
                sub["patchInnerDimensions"]["xy".index(f)] += 1
        else:
            f = rng.choice(["cellBorder", "numCellsInPatchBorder", "s", "none"])
            if f in sub:
                sub[f] += 1
        if f == "s":
            d2["top"]["pixelScale"] = round(d2["top"]["pixelScale"]*0.9, 4)
        m2, g2 = confs.build(d2), confs.grid_conf(d2)
        for i in sorted({rng.randrange(n) for _ in range(3)}):
            grab(R, T, rng, "n%d" % i, m2[i], g2, 4, 4)
        T.compare(rng, 80)


def suite_maps(seed, tier, cases):
    rng = rng_for(seed, "samemaps")
    n = 40 if tier == "quick" else 600
    return [("maps " + confs.key(d), u_maps, (d,)) for d in [confs.rand_desc(rng) for _ in range(n)]]
