"""Catalogues made patch by patch (spec/TracePrim.tla, spec/MCPrimary.tla).

A search gives the patches of a region; workers that have a pickled copy of the map take one each, in
any order, some of them twice, and list the objects in the patch, primary or not.
"""
import math
import pickle

from common import *  # noqa: F401,F403
from common import geom, np
import confs
from scen_map import edge_positions, pos, tid, cap_counts, clip, NT as _NT  # noqa: F401
from scen_tract import interesting_x


def finite(s):
    return math.isfinite(s.getLongitude().asRadians()) and math.isfinite(s.getLatitude().asRadians())


def pixel(w, c):
    try:
        p = w.skyToPixel(c)
        x, y = p.getX(), p.getY()
    except Exception:
        return None
    return (x, y) if math.isfinite(x) and math.isfinite(y) and max(abs(x), abs(y)) < 1e8 else None


def in_poly(poly, c):
    from lsst.sphgeom import UnitVector3d
    v = c.getVector()
    return poly.contains(v if isinstance(v, UnitVector3d) else UnitVector3d(v[0], v[1], v[2]))


def worker(blob, t, p, objs, how, rng):
    """One patch of one tract: the objects it sees, and those for which it is the primary one."""
    m = pickle.loads(blob)
    if rng.random() < 0.3:         # other work before
        m[rng.randrange(len(m))]
    tract = m[t]
    patch = tract[p] if how == 0 else tract.getPatchInfo(p) if how == 1 else tract[tract.getPatchIndexPair(p)]
    w = patch.getWcs() if hasattr(patch, "getWcs") and rng.random() < 0.5 else tract.getWcs()
    seen, prim = [], []
    out, inn = patch.getOuterBBox(), patch.getInnerBBox()
    for k, c in objs.items():
        q = pixel(w, c)
        if q is None:
            continue
        q = geom.Point2I(geom.Point2D(*q))
        if out.contains(q):
            seen.append(k)
            if inn.contains(q) and m.findTract(c).getId() == t:
                prim.append(k)
    return seen, prim


def region_unit(R, rng, d, nreg):
    m = confs.build(d)
    n = len(m)
    gc = confs.grid_conf(d)
    D = confs.inner_dims(d)
    top = confs.full(d)[0]
    b = gc["pb"] if gc["kind"] == "legacy" else gc["ncb"]*gc["cw"] + gc["cb"]
    tan = top["projection"] == "TAN"
    counts = None
    if d["cls"] == "rings":
        counts = cap_counts(m, top["numRings"], d["version"])
    blob = pickle.dumps(m)
    for _ in range(nreg):
        R("region")
        # somewhere where it matters
        e, base = call(lambda: pos(*edge_positions(rng, d, counts, 1)[0]))
        if e:
            continue
        if rng.random() < 0.5 or d["cls"] == "discrete":
            i = rng.randrange(n)
            t = m[i]
            nn = t.getNumPatches()
            s = t.getWcs().pixelToSky(geom.Point2D(interesting_x(rng, nn[0], D[0], b), interesting_x(rng, nn[1], D[1], b)))
            if finite(s) and rng.random() < 0.8:
                base = s
        own = m.findTract(base)
        w = own.getWcs()
        p0 = pixel(w, base)
        if p0 is None:
            continue
        r = rng.choice([3, 0.3*D[0], 0.8*D[0], 1.5*D[0]]) + 1
        near = lambda f: w.pixelToSky(geom.Point2D(p0[0] + f*r*rng.uniform(-1, 1), p0[1] + f*r*rng.uniform(-1, 1)))  # noqa: E731
        th = rng.uniform(0, 6.28)
        nc = rng.choice([3, 4, 4, 6])
        corners = [w.pixelToSky(geom.Point2D(p0[0] + 1.3*r*math.cos(th + 6.2832*j/nc), p0[1] + 1.3*r*math.sin(th + 6.2832*j/nc))) for j in range(nc)]
        if rng.random() < 0.4:     # a region along the pixels
            corners = [w.pixelToSky(geom.Point2D(p0[0] + a*r, p0[1] + c*r)) for a, c in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        corners = [c for c in corners if finite(c)]
        if not corners:
            continue
        objs = {}
        for k in range(1, rng.choice([4, 8]) + 1):
            u = rng.random()
            if k == 1:
                s = base
            elif u < 0.4:
                s = near(0.9)
            elif u < 0.8:          # at the edge of a patch
                x, y = p0[0] + r*rng.uniform(-0.9, 0.9), p0[1] + r*rng.uniform(-0.9, 0.9)
                if rng.random() < 0.6:
                    x = round(x/D[0])*D[0] - 0.5 + rng.choice([0, 0, 1e-6, -1e-6, 1e-9, -1e-9, 0.01, -0.01, b, -b])
                if rng.random() < 0.6:
                    y = round(y/D[1])*D[1] - 0.5 + rng.choice([0, 0, 1e-6, -1e-6, 1e-9, -1e-9, 0.01, -0.01, b, -b])
                s = w.pixelToSky(geom.Point2D(x, y))
            else:                  # just over the edge of the tract's region, maybe
                lon, lat = lonlat(base)
                s = pos(*clip((lon + rng.choice([0, 20, 3000, -20, -3000]), lat + rng.choice([0, 20, 3000, -20, -3000]))))
            if finite(s):
                objs[k] = s
        with guard(R, "merging"):
            err, v = call(m.findTractPatchList, corners)
            if err:
                R("crash", where="findTractPatchList", ex=err[0], loc="")
                continue
            got = [[tid(t), [I(p.getSequentialIndex()) for p in ps]] for t, ps in v]
            owner = {k: tid(m.findTract(c)) for k, c in objs.items()}
            ts = sorted({t for t, _ in got} | set(owner.values()))
            if len(ts) > 30 or sum(len(x[1]) for x in got) > 90:
                continue
            for t in ts:
                R("grid", t=t, n=IL(m[t].getNumPatches(), 2), c=gc)
            inside = []
            for k, c in objs.items():
                o = owner[k]
                at = []
                for t in ts:
                    q = pixel(m[t].getWcs(), c)
                    if q:
                        at.append([t, bool(m[t].contains(c)), micro(q[0]), micro(q[1])])
                has = bool(m[o].contains(c))

                def facts():
                    radec = [c.getLongitude().asRadians()], [c.getLatitude().asRadians()]
                    arr = int(m.findTractIdArray(np.array(radec[0]), np.array(radec[1]), degrees=False)[0])
                    cl = m.findClosestTractPatchList([c])
                    nr = [tid(cl[0][0]), [I(p.getSequentialIndex()) for p in cl[0][1]]] if len(cl) == 1 else [o, []] if not cl else [BAD, []]
                    al = sorted(tid(t) for t in m.findAllTracts(c)) if d["cls"] == "rings" else [o]
                    pa, ok = -1, True
                    if has:
                        p = m[o].findPatch(c)
                        pa = I(p.getSequentialIndex())
                        if tan:
                            q = pixel(m[o].getWcs(), c)
                            # off the edges, where the polygon and the pixels may differ
                            f = [abs((q[j] + 0.5)/D[j] - round((q[j] + 0.5)/D[j]))*D[j] for j in (0, 1)]
                            if min(f) > 1e-3:
                                ok = in_poly(p.getInnerSkyPolygon(), c) and in_poly(p.getOuterSkyPolygon(), c) and in_poly(m[o].getOuterSkyPolygon(), c)
                    return arr, nr, al, pa, ok
                err, v = call(facts)
                arr, nr, al, pa, ok = v if v else (BAD, [BAD, []], [], BAD, False)
                R("obj", k=k, own=o, at=at, has=has, err=err, array=arr, near=nr, all=al, patch=pa, region=bool(ok))
                # is it between the corners, in the pixels of its tract?
                q = pixel(m[o].getWcs(), c)
                cs = [x for x in (pixel(m[o].getWcs(), y) for y in corners) if x]
                if q and has and cs and all(min(x[j] for x in cs) <= q[j] <= max(x[j] for x in cs) for j in (0, 1)):
                    if d["cls"] != "rings" or any(m[o].contains(y) for y in corners):
                        inside.append(k)
            work = [(t, p) for t, ps in got for p in ps]
            R("search", err=[], got=got, inside=inside, work=[list(x) for x in work])
            rng.shuffle(work)
            again = rng.sample(work, min(len(work), 2))
            for t, p in work + again:
                err, v = call(worker, blob, t, p, objs, rng.randrange(3), rng)
                seen, prim = v or ([], [])
                R("work", t=t, p=p, err=err, seen=seen, prim=prim)
            R("done", inside=inside)


def suite_merge(seed, tier, cases):
    rng = rng_for(seed, "merge")
    out = []
    k = 1 if tier == "quick" else 14
    for cls, n in (("dodeca", 10), ("equat", 10), ("healpix", 12), ("discrete", 12), ("rings", 24)):
        for _ in range(n*k):
            d = confs.rand_desc(rng, cls=cls, maxpatch=rng.choice([4, 8, 12]), proj="TAN" if rng.random() < 0.6 and cls != "equat" else None)
            if confs.ntracts(d) > 400:
                continue
            out.append(("merge " + confs.key(d), region_unit, (d, 10)))
    return out
