"""Scenarios about tracts, patches and cells (C01-C04, C15, C16, C18, C19)."""
import json
import math

from common import *  # noqa: F401,F403
from common import geom, afwGeom, np
import confs
import obs
import substrate


def make_tract(g, nx, ny, slack=(0, 0), crval=(10.0, 20.0), scale=1.0, proj="TAN", rot=0.0):
    """A stand-alone tract of exactly nx x ny patches with the grid options g."""
    from lsst.skymap import TractInfo, tractBuilderRegistry
    cls = tractBuilderRegistry[g["kind"]]
    c = cls.ConfigClass()
    if g["kind"] == "legacy":
        c.patchInnerDimensions = [g["dx"], g["dy"]]
        c.patchBorder = g["pb"]
        D = (g["dx"], g["dy"])
    else:
        c.cellInnerDimensions = [g["cw"], g["ch"]]
        c.cellBorder = g["cb"]
        c.numCellsPerPatchInner = g["nci"]
        c.numCellsInPatchBorder = g["ncb"]
        D = (g["cw"]*g["nci"], g["ch"]*g["nci"])
    b = cls(c)
    cd = afwGeom.makeCdMatrix(geom.Angle(scale, geom.arcseconds), geom.Angle(rot, geom.degrees))
    w = afwGeom.makeSkyWcs(geom.Point2D(7, -3), sp(*crval), cd, proj)
    W, H = nx*D[0] - slack[0], ny*D[1] - slack[1]
    vs = [w.pixelToSky(geom.Point2D(x, y)) for x, y in ((0, 0), (W - 1, 0), (W - 1, H - 1), (0, H - 1))]
    return TractInfo(5, b, sp(*crval), vs, geom.Angle(0.0), w), D


def probe_tract(R, k, t, g, n, rng, npatch=10**9, ncell=10**9, forms=2):
    """All of C01-C04 on a tract."""
    nx, ny = n
    if nx < 1 or ny < 1 or nx > 10**5 or ny > 10**5:
        return
    total = nx*ny
    if total <= npatch:
        todo = [(x, y) for y in range(ny) for x in range(nx)]
    else:
        xs, ys = sorted({0, 1 % nx, nx//2, nx - 1}), sorted({0, 1 % ny, ny//2, ny - 1})
        todo = [(x, y) for x in xs for y in ys]
        todo += [(rng.randrange(nx), rng.randrange(ny)) for _ in range(npatch)]
    ps = {}
    for (x, y) in todo:
        for f in rng.sample(obs.PAIRS, forms):
            p = obs.patch(R, k, t, f, (x, y))
        for f in rng.sample(obs.SEQS, max(1, forms - 1)):
            q = obs.patch(R, k, t, f, (nx*y + x,))
        if p is not None and q is not None and not obs.eq(p, q):
            R("conv", k=k, fn="differ", a=[x, y], err=[], res=[BAD])
        if p is not None:
            ps[x, y] = p
        obs.conv(R, k, "p2s", t.getSequentialPatchIndexFromPair, (x, y), (x, y))
        obs.conv(R, k, "s2p", t.getPatchIndexPair, nx*y + x, (nx*y + x,))
    from lsst.skymap import Index2D
    obs.conv(R, k, "p2s", t.getSequentialPatchIndexFromPair, Index2D(x=nx - 1, y=0), (nx - 1, 0))
    obs.conv(R, k, "p2s", t.getSequentialPatchIndexFromPair, [0, ny - 1], (0, ny - 1))
    bad = [(-1, 0), (0, -1), (nx, 0), (0, ny), (nx, ny), (-1, -1), (-nx, -ny), (nx - 1, ny), (nx, ny - 1), (-1, ny - 1),
           (nx, -1), (nx + 7, 0), (0, ny + 1000000)]
    for a in bad:
        obs.patch(R, k, t, rng.choice(obs.PAIRS), a)
    for s in (-1, -total, total, total + 1, -total - 1, -nx, total + nx - 1, 10**8):
        obs.patch(R, k, t, rng.choice(obs.SEQS), (s,))
    for v in (3, None, 2.5, (1,), (1, 2, 3), [], np.int64(0)):
        obs.conv(R, k, "notpair", t.getSequentialPatchIndexFromPair, v, ())
    obs.iterate(R, k, t, False, 400)
    # cells
    for (x, y) in ([(0, 0), (nx - 1, ny - 1)] if ncell > 10**6 and total > 6 else
                   [(0, 0), (nx - 1, ny - 1), (rng.randrange(nx), rng.randrange(ny))]):
        p = ps.get((x, y)) or call(t.getPatchInfo, (x, y))[1]
        if p is None:
            continue
        probe_cells(R, k, p, (x, y), g, rng, ncell)


def probe_cells(R, k, p, pidx, g, rng, ncell):
    from lsst.skymap import Index2D
    if g["kind"] == "legacy":
        for f in obs.PAIRS[:3]:
            obs.cell(R, k, p, pidx, f, (0, 0))
        for f in obs.SEQS:
            obs.cell(R, k, p, pidx, f, (0,))
        obs.conv(R, k, "cp2s", p.getSequentialCellIndexFromPair, (0, 0), (0, 0))
        obs.conv(R, k, "cs2p", p.getCellIndexPair, 0, (0,))
        obs.iterate(R, k, p, True)
        return
    n = g["nci"] + 2*g["ncb"]
    if n*n <= ncell:
        todo = [(i, j) for j in range(n) for i in range(n)]
    else:
        e = sorted({0, max(0, g["ncb"] - 1), g["ncb"], n//2, n - 1 - g["ncb"], n - 1})
        todo = [(i, j) for i in e for j in e]
        todo = rng.sample(todo, min(len(todo), ncell)) + [(rng.randrange(n), rng.randrange(n)) for _ in range(ncell//2)]
    for (i, j) in todo:
        c = obs.cell(R, k, p, pidx, rng.choice(obs.PAIRS), (i, j))
        c2 = obs.cell(R, k, p, pidx, rng.choice(obs.SEQS), (n*j + i,))
        if c is not None and c2 is not None and not obs.eq(c, c2):
            R("conv", k=k, fn="differ", a=[i, j], err=[], res=[BAD])
        obs.conv(R, k, "cp2s", p.getSequentialCellIndexFromPair, rng.choice([(i, j), Index2D(i, j)]), (i, j))
        obs.conv(R, k, "cs2p", p.getCellIndexPair, n*j + i, (n*j + i,))
    for a in [(-1, 0), (0, -1), (n, 0), (0, n), (-1, n - 1), (n, -1), (n + 3, n), (-n, -n)]:
        obs.cell(R, k, p, pidx, rng.choice(obs.PAIRS), a)
        obs.conv(R, k, "cp2s", p.getSequentialCellIndexFromPair, a, a)
    for s in (-1, n*n, n*n + 1, -n*n, -n, 10**8):
        obs.cell(R, k, p, pidx, rng.choice(obs.SEQS), (s,))
        obs.conv(R, k, "cs2p", p.getCellIndexPair, s, (s,))
    obs.iterate(R, k, p, True, 700)


# ------------------------------------------------------------------ suites
def load_cases(cases):
    with open(cases) as f:
        return [json.loads(x) for x in f]


def u_grid(R, rng, gs):
    for num, g in enumerate(gs):
        D = (g["dx"], g["dy"]) if g["kind"] == "legacy" else (g["cw"]*g["nci"], g["ch"]*g["nci"])
        slack = (rng.randrange(D[0]), rng.randrange(D[1]))
        k = "g%d" % num
        with guard(R, "tract %s" % json.dumps(g)):
            t, _ = make_tract(g, g["nx"], g["ny"], slack)
            c = {x: g[x] for x in ("kind", "dx", "dy", "pb", "cw", "ch", "cb", "nci", "ncb")}
            n = obs.tract(R, k, t, c)
            if n != [g["nx"], g["ny"]]:
                # the needed pixels are known exactly here
                R("conv", k=k, fn="count", a=n, err=[], res=[BAD])
            probe_tract(R, k, t, c, n, rng, forms=1)


def u_far(R, rng, n):
    """Tracts of tens of millions of pixels, and areas that are just whole patches or a pixel more or less."""
    for num in range(n):
        nx, ny = rng.choice([1, 2, 3, 4, 7, 60]), rng.choice([1, 2, 3, 5])
        big = rng.randint(2**24, 2**27)
        c = big//(20*max(nx, ny))
        if rng.random() < 0.5:
            g = dict(kind="legacy", dx=big//nx, dy=rng.choice([big//ny, big//nx, 1000003]), pb=rng.choice([0, 100, 70000]), cw=0, ch=0, cb=0, nci=0, ncb=0)
            D = (g["dx"], g["dy"])
        else:
            g = dict(kind="cells", dx=0, dy=0, pb=0, cw=c, ch=c, cb=rng.choice([0, 50, 99999]), nci=20, ncb=rng.choice([0, 1, 2]))
            D = (20*c, 20*c)
        k = "f%d" % num
        with guard(R, "tract %s" % json.dumps(g)):
            t, _ = make_tract(g, nx, ny, [rng.choice([0, 1, d - 1, d - 1, d - 2, rng.randrange(d)]) for d in D], scale=3600.0/big)
            c = {x: g[x] for x in ("kind", "dx", "dy", "pb", "cw", "ch", "cb", "nci", "ncb")}
            m = obs.tract(R, k, t, c)
            if m != [nx, ny]:
                R("conv", k=k, fn="count", a=m, err=[], res=[BAD])
            probe_tract(R, k, t, c, m, rng, npatch=10, ncell=10, forms=1)


def suite_grids(seed, tier, cases):
    """Every grid that TLC enumerated, as a real tract."""
    cs = load_cases(cases)
    step = 25
    if tier == "quick" and len(cs) > 900:
        rng = rng_for(seed, "grids")
        cs = rng.sample(cs, 900)
    return [("grids %d" % i, u_grid, (cs[i:i + step],)) for i in range(0, len(cs), step)] + \
        [("far %d" % i, u_far, (8,)) for i in range(8 if tier == "quick" else 100)]


def u_map(R, rng, d, ntr):
    m = confs.build(d)
    g = confs.grid_conf(d)
    n = len(m)
    ids = sorted({0, n - 1} | {rng.randrange(n) for _ in range(ntr)}) if n > ntr else list(range(n))
    rng.shuffle(ids)
    ts = [(i, m[i]) for i in ids]          # all generated before any is asked
    for i, t in ts:
        k = "t%d" % i
        with guard(R, "tract %d" % i):
            nn = obs.tract(R, k, t, g)
            probe_tract(R, k, t, g, nn, rng, npatch=14, ncell=12, forms=2)


def suite_maps(seed, tier, cases):
    rng = rng_for(seed, "maps")
    n = 48 if tier == "quick" else 600
    ds = [confs.rand_desc(rng) for _ in range(n)] + confs.FIXED
    for nci, ncb in [(1, 2), (1, 3), (2, 3), (1, 5), (3, 7)]:      # wider borders than patches
        for _ in range(1 if tier == "quick" else 8):
            d = confs.rand_desc(rng, maxpatch=4)
            d["tb"] = "cells"
            c = rng.randint(2, 9)
            d["sub"] = dict(cellInnerDimensions=[c, c], cellBorder=rng.choice([0, 1, 3]), numCellsPerPatchInner=nci, numCellsInPatchBorder=ncb)
            d["top"]["pixelScale"] = round(d["top"]["pixelScale"]*40/(c*nci), 3)
            ds.append(d)
    for _ in range(6 if tier == "quick" else 60):      # tracts of many millions of pixels
        d = confs.rand_desc(rng, maxpatch=4)
        confs.magnify(rng, d, 2**rng.uniform(13, 17))
        ds.append(d)
    return [("map " + confs.key(d), u_map, (d, 3)) for d in ds]


# ------------------------------------------------- lookups on the sky (C15, C16)
def anysky(rng):
    return sp(rng.uniform(0, 360), math.degrees(math.asin(rng.uniform(-1, 1))))


def horizon(rng, o):
    """A position close to where the projections of a tract at `o` end (or just beyond): its pixel position may be huge."""
    d = rng.choice([90.0, 90.0, 180.0]) - rng.choice([1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 0.0, -1e-8, -1e-5])
    return o.offset(geom.Angle(rng.choice([0.0, 90.0, 180.0, 270.0, rng.uniform(0, 360)]), geom.degrees),
                    geom.Angle(min(d, 180.0), geom.degrees))


def interesting_x(rng, n, D, b):
    """A pixel coordinate near something that matters along an axis of n patches of D pixels."""
    W = n*D
    r = rng.random()
    eps = rng.choice([1e-4, 0.01, 0.3, 0.49])*rng.choice([-1, 1])
    if r < 0.25:
        return rng.uniform(-0.5, W - 0.5)
    if r < 0.45:          # patch edges
        return rng.randint(0, n)*D - 0.5 + eps
    if r < 0.6:           # tract edges
        return rng.choice([-0.5, W - 0.5]) + eps
    if r < 0.75:          # a border away from a patch or tract edge
        return rng.randint(0, n)*D - 0.5 + rng.choice([-b, b]) + eps
    if r < 0.9:
        return rng.uniform(-2*D - b, W + 2*D + b)
    return rng.choice([-1, 1])*rng.uniform(W, 4*W) if rng.random() < 0.5 else rng.randint(0, W) + eps


def u_locate(R, rng, d, ntr, npos):
    m = confs.build(d)
    g = confs.grid_conf(d)
    D = confs.inner_dims(d)
    n = len(m)
    ids = sorted({rng.randrange(n) for _ in range(ntr)} | ({0, n - 1} if rng.random() < 0.3 else set()))
    ts = [(i, m[i]) for i in ids]
    for i, t in ts:
        k = "t%d" % i
        nn = obs.tract(R, k, t, g)
        b = g["pb"] if g["kind"] == "legacy" else g["ncb"]*g["cw"] + g["cb"]
        if max(nn[0]*D[0], nn[1]*D[1]) + b > 9e7:         # beyond what is written of a pixel position
            continue
        for j in range(npos):
            mode = rng.choice(["nan", "domain", "runtime", "nanx", "nany", "inf"])
            substrate.setBadPixelMode("nan")
            w = t.getWcs()
            r = rng.random()
            if r < 0.8:
                c = w.pixelToSky(geom.Point2D(interesting_x(rng, nn[0], D[0], b), interesting_x(rng, nn[1], D[1], b)))
                if not math.isfinite(c.getLongitude().asRadians()):
                    c = anysky(rng)
            elif r < 0.9:
                c = anysky(rng)
            elif r < 0.93:
                c = sp(rng.uniform(0, 360), rng.choice([-90.0, 90.0, 0.0]))
            elif r < 0.97:
                c = horizon(rng, t.getCtrCoord())
            else:       # the antipode of the tract: nothing projects there
                o = t.getCtrCoord()
                c = sp((o.getLongitude().asDegrees() + 180) % 360, max(-90.0, min(90.0, -o.getLatitude().asDegrees())))
            substrate.setBadPixelMode(mode)
            with guard(R, "locate"):
                obs.locate(R, k, t, c)
        substrate.setBadPixelMode("nan")


def suite_locate(seed, tier, cases):
    rng = rng_for(seed, "locate")
    n = 110 if tier == "quick" else 1500
    ds = [confs.rand_desc(rng) for _ in range(n)] + confs.FIXED
    for _ in range(8 if tier == "quick" else 150):      # patches and borders of thousands of pixels
        ds.append(confs.magnify(rng, confs.rand_desc(rng), 2**rng.uniform(2, 9)))
    for _ in range(5 if tier == "quick" else 50):       # and of millions
        ds.append(confs.magnify(rng, confs.rand_desc(rng), 2**rng.uniform(15, 18)))
    return [("locate " + confs.key(d), u_locate, (d, 3, 40)) for d in ds]


def u_gridlocate(R, rng, gs, npos, nq):
    """Every pixel edge of small tracts, and query boxes around them."""
    for num, g in enumerate(gs):
        k = "g%d" % num
        with guard(R, "tract %s" % json.dumps(g)):
            t, D = make_tract(g, g["nx"], g["ny"], (0, 0), crval=(rng.uniform(0, 360), rng.uniform(-80, 80)))
            c = {x: g[x] for x in ("kind", "dx", "dy", "pb", "cw", "ch", "cb", "nci", "ncb")}
            n = obs.tract(R, k, t, c)
            w = t.getWcs()
            W, H = g["nx"]*D[0], g["ny"]*D[1]
            if npos:
                pts = [(x, y) for x in range(-1, W + 1) for y in range(-1, H + 1)]
                rng.shuffle(pts)
                for x, y in pts[:npos]:
                    s = w.pixelToSky(geom.Point2D(x + rng.choice([-0.499, 0, 0.499]), y + rng.choice([-0.499, 0, 0.499])))
                    obs.locate(R, k, t, s)
            b = g["pb"] if g["kind"] == "legacy" else g["ncb"]*g["cw"] + g["cb"]
            for _ in range(nq):
                q = []
                for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                    q.append(w.pixelToSky(geom.Point2D(rng.randint(-b - 3, W + b + 3) + rng.choice([-0.499, 0, 0.499]),
                                                       rng.randint(-b - 3, H + b + 3) + rng.choice([-0.499, 0, 0.499]))))
                obs.plist(R, k, t, q, rng.choice([list, tuple]))


def suite_gridlocate(seed, tier, cases):
    cs = load_cases(cases)
    rng = rng_for(seed, "gridlocate")
    if tier == "quick":
        cs = rng.sample(cs, min(len(cs), 320))
    return [("gridlocate %d" % i, u_gridlocate, (cs[i:i + 10], 80, 0)) for i in range(0, len(cs), 10)]


def suite_gridlists(seed, tier, cases):
    cs = load_cases(cases)
    rng = rng_for(seed, "gridlists")
    if tier == "quick":
        cs = rng.sample(cs, min(len(cs), 400))
    return [("gridlists %d" % i, u_gridlocate, (cs[i:i + 10], 0, 40 if tier == "quick" else 150)) for i in range(0, len(cs), 10)]


def u_plist(R, rng, d, ntr, nq):
    m = confs.build(d)
    g = confs.grid_conf(d)
    D = confs.inner_dims(d)
    n = len(m)
    b = g["pb"] if g["kind"] == "legacy" else g["ncb"]*g["cw"] + g["cb"]
    ts = [(i, m[i]) for i in sorted({rng.randrange(n) for _ in range(ntr)})]
    for i, t in ts:
        k = "t%d" % i
        nn = obs.tract(R, k, t, g)
        if max(nn[0]*D[0], nn[1]*D[1]) + b > 9e7:         # beyond what is written of a pixel position
            continue
        if nn[0]*nn[1] > 1500:
            lim = 12          # ask for a few patches of a big tract only
        else:
            lim = None
        w = t.getWcs()
        for j in range(nq):
            substrate.setBadPixelMode("nan")
            q = []
            np_ = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
            many = j == nq - 1 and rng.random() < 0.5      # a long list: positions about one spot, along a line or on a curve
            ax, ay = interesting_x(rng, nn[0], D[0], b), interesting_x(rng, nn[1], D[1], b)
            for _ in range(np_):
                if lim:
                    x, y = ax + rng.uniform(-lim, lim)*D[0]/4, ay + rng.uniform(-lim, lim)*D[1]/4
                elif rng.random() < 0.4:
                    x, y = ax + rng.choice([-1, 0, 1]), ay + rng.choice([-1, 0, 1])
                else:
                    x, y = interesting_x(rng, nn[0], D[0], b), interesting_x(rng, nn[1], D[1], b)
                s = w.pixelToSky(geom.Point2D(x, y))
                if math.isfinite(s.getLongitude().asRadians()):
                    q.append(s)
            if many:
                q = []
                lx, ly = (lim*D[0]/4, lim*D[1]/4) if lim else (rng.uniform(0, 2)*D[0], rng.uniform(0, 2)*D[1])
                np_ = rng.choice([64, 65, 101, 200, 257, 300])
                ph = rng.uniform(0, 7)
                how = rng.choice(["line", "disc", "arc"])
                for i in range(np_):
                    u = i/np_*rng.choice([1, 1.01])
                    if how == "disc":
                        x, y = rng.uniform(-1, 1), rng.uniform(-1, 1)
                    elif how == "line":
                        x, y = (2*u - 1)*math.cos(ph), (2*u - 1)*math.sin(ph)
                    else:
                        x, y = math.cos(ph + 6*u), math.sin(ph + 6*u)
                    s = w.pixelToSky(geom.Point2D(ax + lx*x, ay + ly*y))
                    if math.isfinite(s.getLongitude().asRadians()):
                        q.append(s)
                if rng.random() < 0.6:
                    rng.shuffle(q)
            if rng.random() < 0.3:      # positions that may not project
                o = t.getCtrCoord()
                s = sp((o.getLongitude().asDegrees() + 180) % 360, max(-90.0, min(90.0, -o.getLatitude().asDegrees())))
                q.insert(rng.randint(0, len(q)), s)
                if rng.random() < 0.3:
                    q.append(s)
            if rng.random() < 0.1 and not lim:
                q.append(anysky(rng))
            if rng.random() < 0.15 and not lim:     # close to the horizon of the tract
                q = [horizon(rng, t.getCtrCoord())] if rng.random() < 0.3 else q + [horizon(rng, t.getCtrCoord())]
            substrate.setBadPixelMode(rng.choice(["nan", "domain", "runtime"]))
            with guard(R, "findPatchList"):
                obs.plist(R, k, t, q, rng.choice([list, tuple]))
        substrate.setBadPixelMode("nan")


def suite_plist(seed, tier, cases):
    rng = rng_for(seed, "plist")
    n = 110 if tier == "quick" else 1500
    ds = [confs.rand_desc(rng) for _ in range(n)] + confs.FIXED
    for _ in range(14 if tier == "quick" else 150):      # patches and borders of thousands of pixels
        ds.append(confs.magnify(rng, confs.rand_desc(rng), 2**rng.choice([rng.uniform(2, 9), rng.uniform(2, 9), rng.uniform(13, 17)])))
    return [("plist " + confs.key(d), u_plist, (d, 3, 30)) for d in ds]


# ---------------------------------------------------------------- C18 placement
def u_place(R, rng, d, ntr):
    m = confs.build(d)
    g = confs.grid_conf(d)
    n = len(m)
    ids = sorted({0, n - 1} | {rng.randrange(n) for _ in range(ntr)}) if n > ntr else list(range(n))
    ts = [(i, m[i]) for i in ids]
    rng.shuffle(ts)
    for i, t in ts:
        k = "t%d" % i
        with guard(R, "tract %d" % i):
            obs.tract(R, k, t, g)
            obs.place(R, k, t, d, i, rng)


def suite_place(seed, tier, cases):
    rng = rng_for(seed, "place")
    n = 160 if tier == "quick" else 2500
    ds = [confs.rand_desc(rng, maxpatch=rng.choice([2, 7, 20])) for _ in range(n)] + confs.FIXED
    for _ in range(8 if tier == "quick" else 150):
        ds.append(confs.magnify(rng, confs.rand_desc(rng), 2**rng.uniform(2, 9)))
    for _ in range(10 if tier == "quick" else 150):        # much overlap, and little that is added to fill the patches
        cls = rng.choice(["dodeca", "equat", "healpix"])
        ds.append(confs.rand_desc(rng, cls=cls, maxpatch=30, overlap=round(rng.uniform(5, 25), 3),
                                  proj=rng.choice(["STG", "ZEA", "ARC"] if cls != "equat" else ["CEA", "CAR", "STG"])))
    for j in range(8):      # an overlap of less than an arcsecond, and of many pixels
        k = rng.choice([9, 10, 11])
        ov = round(10**rng.uniform(-4.6, -3.6), 7)
        top = dict(log2NSide=k, nest=j % 2 == 0, tractOverlap=ov, projection=rng.choice(["STG", "TAN", "ZEA"]), rotation=0.0,
                   pixelScale=round(ov*3600/rng.choice([4.3, 9.7, 20.5]), 6))
        ds.append(dict(cls="healpix", tb="legacy", top=top, sub=dict(patchInnerDimensions=[rng.randint(3, 9), rng.randint(3, 9)],
                                                                   patchBorder=1)))
    return [("place " + confs.key(d), u_place, (d, 4)) for d in ds]


# ---------------------------------------------------------------- C19 sky regions
def u_poly(R, rng, d, ntr, npatch):
    m = confs.build(d)
    g = confs.grid_conf(d)
    n = len(m)
    ids = sorted({0, n - 1} | {rng.randrange(n) for _ in range(ntr)}) if n > ntr else list(range(n))
    ts = [(i, m[i]) for i in ids]
    rng.shuffle(ts)
    for i, t in ts:
        k = "t%d" % i
        w = t.getWcs()

        def good(bx, w=w):
            """the corners project, and the box is small enough to be convex on the sky"""
            cs = [w.pixelToSky(p) for p in geom.Box2D(bx).getCorners()]
            ok = all(math.isfinite(c.getLongitude().asRadians()) for c in cs)
            if not ok:
                return False
            top = confs.full(d)[0]
            side = max(bx.getWidth(), bx.getHeight())*top["pixelScale"]/3600
            if side > 40:
                return False
            try:    # the corners are in convex position
                from lsst.sphgeom import ConvexPolygon
                if len(ConvexPolygon([c.getVector() for c in cs]).getVertices()) != 4:
                    return False
            except Exception:
                return False
            for c, p in zip(cs, geom.Box2D(bx).getCorners()):
                q = w.skyToPixel(c)
                if not (abs(q.getX() - p.getX()) < 1e-4 and abs(q.getY() - p.getY()) < 1e-4):
                    return False
            return True
        with guard(R, "regions of tract %d" % i):
            nn = obs.tract(R, k, t, g)
            shifted = w.copyAtShiftedPixelOrigin(geom.Extent2D(rng.choice([-3, -2, -1, 1, 2, 3]), rng.choice([-3, -2, -1, 1, 2, 3])))

            def good2(*bs):
                return all(good(b) and good(b, shifted) for b in bs)
            if good(t.getBBox()):
                obs.poly(R, k, "tract", t.getOuterSkyPolygon, w, other=lambda: t.outer_sky_polygon)
                explicit = d["cls"] in ("discrete", "rings")
                obs.verts(R, k, t, explicit, d["cls"] == "rings")
            for _ in range(npatch):
                p = (rng.choice([0, nn[0] - 1, rng.randrange(nn[0])]), rng.choice([0, nn[1] - 1, rng.randrange(nn[1])]))
                pi = t.getPatchInfo(p)
                if not good2(pi.getOuterBBox(), pi.getInnerBBox()):
                    continue
                obs.poly(R, k, "inner", pi.getInnerSkyPolygon, w, p, other=lambda: pi.inner_sky_polygon)
                obs.poly(R, k, "outer", pi.getOuterSkyPolygon, w, p, other=lambda: pi.outer_sky_polygon)
                # the explicit WCS is used: in its own pixels the corners are the same
                obs.poly(R, k, "inner", lambda: pi.getInnerSkyPolygon(shifted), shifted, p,
                         other=lambda: pi.getInnerSkyPolygon(tractWcs=shifted))
                obs.poly(R, k, "outer", lambda: pi.getOuterSkyPolygon(tractWcs=shifted), shifted, p)
                if g["kind"] == "cells":
                    nc = g["nci"] + 2*g["ncb"]
                    c = (rng.choice([0, nc - 1, rng.randrange(nc)]), rng.choice([0, nc - 1, rng.randrange(nc)]))
                    ci = pi.getCellInfo(c)
                    if not good2(ci.getOuterBBox(), ci.getInnerBBox()):
                        continue
                    obs.poly(R, k, "cinner", ci.getInnerSkyPolygon, w, p, c, other=lambda: ci.inner_sky_polygon)
                    obs.poly(R, k, "couter", ci.getOuterSkyPolygon, w, p, c, other=lambda: ci.outer_sky_polygon)
                    obs.poly(R, k, "cinner", lambda: ci.getInnerSkyPolygon(shifted), shifted, p, c)
                    obs.poly(R, k, "couter", lambda: ci.getOuterSkyPolygon(tractWcs=shifted), shifted, p, c)


def suite_poly(seed, tier, cases):
    rng = rng_for(seed, "poly")
    n = 150 if tier == "quick" else 2000
    ds = []
    while len(ds) < n:
        d = confs.rand_desc(rng, maxpatch=6)
        if d["cls"] == "rings" and d["top"]["numRings"] < 4 and rng.random() < 0.8:
            continue
        ds.append(d)
    for d in ds[:6]:        # borders of many pixels
        d["tb"] = "cells"
        d["sub"] = dict(cellInnerDimensions=[rng.randint(9000, 20000)]*2, cellBorder=rng.choice([0, 3, 500]),
                        numCellsPerPatchInner=1, numCellsInPatchBorder=rng.choice([1, 2]))
        d["top"]["pixelScale"] = round(d["top"]["pixelScale"]/3000, 6)
    ds += confs.FIXED
    return [("poly " + confs.key(d), u_poly, (d, 3, 5)) for d in ds]
