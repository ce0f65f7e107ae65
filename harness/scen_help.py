"""Scenarios about the sky geometry helpers (C30)."""
import math

from common import *  # noqa: F401,F403
from common import geom, afwGeom, np

PROJ = ["TAN", "STG", "SIN", "ARC", "ZEA", "CEA", "CAR", "MER", "SFL", "AIT"]


def bearing(a, b):
    """Bearing of b from a, north through east, and the separation (radians), for small separations."""
    from lsst.sphgeom import Vector3d  # noqa: F401
    ra, de = a.getLongitude().asRadians(), a.getLatitude().asRadians()
    u, v = a.getVector(), b.getVector()
    d = [v[i] - u[i] for i in range(3)]
    n = (-math.sin(de)*math.cos(ra), -math.sin(de)*math.sin(ra), math.cos(de))
    e = (-math.sin(ra), math.cos(ra), 0.0)
    dn, dE = sum(d[i]*n[i] for i in range(3)), sum(d[i]*e[i] for i in range(3))
    return math.atan2(dE, dn), math.hypot(dn, dE)


def ref_wcs(crpix, crval, scale, rot, flip, proj):
    """The same WCS by astropy: (x, y) 0-based -> (ra, dec)."""
    from astropy.wcs import WCS
    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---" + proj, "DEC--" + proj]
    w.wcs.crpix = [crpix[0] + 1, crpix[1] + 1]
    w.wcs.crval = list(crval)
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    # +y towards bearing rot; +x 90 degrees to the right of it (left when flipped); intermediate axes are east and north
    sx = 1 if flip else -1
    w.wcs.cd = [[sx*c*scale, s*scale], [-sx*s*scale, c*scale]]
    w.wcs.set()
    return w


def u_wcs(R, rng, nfac, nwcs):
    from lsst.skymap.detail import WcsFactory
    facs = []
    for i in range(nfac):
        proj = rng.choice(PROJ) if rng.random() < 0.9 else rng.choice(["", "T", "TANX", "TA", "CARTESIAN", "TAN-SIP"])
        rot, flip = rng.choice([0.0, 0.0, 90.0, -90.0, 180.0, 45.0, round(rng.uniform(-360, 360), 3)]), rng.random() < 0.4
        sc = round(10**rng.uniform(-1.5, 2.5), 5)
        if facs and rng.random() < 0.5:       # one of a family: as one before but for one argument
            _, _, p0, r0, f0, s0 = rng.choice(facs)
            one = rng.randrange(4)
            proj, rot, flip, sc = (proj if one == 0 else p0), (rot if one == 1 else r0), (not f0 if one == 2 else f0), (sc if one == 3 else s0)
        k = "f%d" % i
        kw = {}
        if rot or rng.random() < 0.5:
            kw["rotation"] = geom.Angle(rot, geom.degrees)
        if flip or rng.random() < 0.5:
            kw["flipX"] = flip
        with guard(R, "factory"):
            e, f = call(WcsFactory, pixelScale=geom.Angle(sc, geom.arcseconds), projection=proj, **kw) if rng.random() < 0.5 or len(kw) < 2 else \
                call(WcsFactory, geom.Angle(sc, geom.arcseconds), proj, kw["rotation"], kw["flipX"])
            R("factory", f=k, len=len(proj), proj=proj, rot=nt(math.radians(rot % 360)), flip=flip, err=e)
            if not e and len(proj) == 3:
                facs.append((k, f, proj, rot, flip, sc))
    for j in range(nwcs if facs else 0):       # in any order
        k, f, proj, rot, flip, sc = rng.choice(facs)
        ra = rng.choice([0.0, round(rng.uniform(0, 360), 4)])
        de = rng.choice([0.0, round(math.degrees(math.asin(rng.uniform(-0.99, 0.99))), 4)])
        if proj not in ("TAN", "STG", "SIN", "ARC", "ZEA") and rng.random() < 0.5:
            de = 0.0
        px, py = rng.choice([0.0, 1.0, round(rng.uniform(-1e4, 1e4), 2)]), rng.choice([0.0, round(rng.uniform(-1e4, 1e4), 2)])
        with guard(R, "makeWcs"):
            c = sp(ra, de)
            e, w = call(f.makeWcs, geom.Point2D(px, py), c) if rng.random() < 0.5 else \
                call(f.makeWcs, crPixPos=geom.Point2D(px, py), crValCoord=c)
            d = dict(at=LIM, org=[0, 0], want=[int(round(px*1000)), int(round(py*1000))], bx=0, by=0, lx=0, ly=0, dev=LIM)
            if not e:
                o = w.pixelToSky(geom.Point2D(px, py))
                d["at"] = nt(2*math.asin(min(1.0, 0.5*math.sqrt(sum((o.getVector()[i] - c.getVector()[i])**2 for i in range(3))))))
                q = w.skyToPixel(c)
                d["org"] = [int(round(q.getX()*1000)), int(round(q.getY()*1000))]
                h = 20.0/sc      # 20 arcsec
                for a, dx, dy in (("x", h, 0), ("y", 0, h)):
                    b, s = bearing(o, w.pixelToSky(geom.Point2D(px + dx, py + dy)))
                    d["b" + a] = nt(b % (2*math.pi)) % 1000000000
                    d["l" + a] = int(round(1e6*s/math.radians(20.0/3600)))
    
                # away from the reference position, against astropy
                aw = ref_wcs((px, py), (ra, de), sc/3600, rot, flip, proj)
                dev = 0.0
                for _ in range(4):
                    x, y = px + rng.uniform(-8, 8)*3600/sc, py + rng.uniform(-8, 8)*3600/sc
                    r, t = (float(v) for v in aw.wcs_pix2world(x, y, 0))
                    g = w.pixelToSky(geom.Point2D(x, y))
                    if not (math.isfinite(r) and math.isfinite(t)):
                        continue
                    a = sp(r, t).getVector()
                    b = g.getVector()
                    dev = max(dev, math.sqrt(sum((a[i] - b[i])**2 for i in range(3))))
                d["dev"] = int(min(LIM, dev*NT))
            R("wcs", f=k, err=e, **d)


def u_vec(R, rng, n):
    from lsst.skymap.detail import coordFromVec
    for _ in range(n):
        with guard(R, "coordFromVec"):
            # (a direction, however long the vector is)
            r = 10**rng.choice([rng.uniform(-4, 4), rng.uniform(-4, 4), rng.uniform(-20, 20), rng.uniform(-140, 140)])
            pole, wlon, wlat = 0, 0, 0
            if rng.random() < 0.35:
                pole = rng.choice([-1, 1])
                t = rng.choice([0.0, -0.0, 1e-309, -3e-310])
                v = [t, rng.choice([0.0, -0.0, 2e-309]), pole*r]
            else:
                lon = rng.choice([0.0, 90.0, 180.0, 270.0, rng.uniform(0, 360)])
                lat = rng.choice([0.0, math.degrees(math.asin(rng.uniform(-1, 1))), rng.choice([-1, 1])*(90 - 10**rng.uniform(-7, 0))])
                wlon, wlat = nt(math.radians(lon)), nt(math.radians(lat))
                a, b = math.radians(lon), math.radians(lat)
                v = [r*math.cos(b)*math.cos(a), r*math.cos(b)*math.sin(a), r*math.sin(b)]
            v = rng.choice([list, tuple, np.array])(v)
            dv, kw = BAD, {}
            x = rng.random()
            if x < 0.6:
                de = rng.choice([0.0, 12.5, 359.9, 180.0, round(rng.uniform(0, 360), 3)])
                dv = nt(math.radians(de))
                kw = dict(defRA=geom.Angle(de, geom.degrees))
            elif x < 0.8:
                kw = dict(defRA=None)
            e, c = call(coordFromVec, v, **kw) if rng.random() < 0.5 or not kw else call(coordFromVec, v, kw["defRA"])
            lon, lat = (BAD, BAD) if e else (nt(c.getLongitude().asRadians()), nt(c.getLatitude().asRadians()))
            R("vec", pole=pole, wlon=wlon, wlat=wlat, err=e, lon=lon, lat=lat, **{"def": dv})


def u_boxpoly(R, rng, n):
    from lsst.skymap import makeSkyPolygonFromBBox
    for _ in range(n):
        sc = 10**rng.uniform(-1, 1.5)
        rot = rng.uniform(0, 360)
        proj = rng.choice(["TAN", "STG", "ZEA", "ARC"])
        w = afwGeom.makeSkyWcs(geom.Point2D(rng.uniform(-500, 500), rng.uniform(-500, 500)), sp(rng.uniform(0, 360), rng.uniform(-90, 90)),
                               afwGeom.makeCdMatrix(geom.Angle(sc, geom.arcseconds), geom.Angle(rot, geom.degrees)), proj)
        far = int(10*3600/sc/1.5)
        x, y = rng.randint(-far//2, far//2), rng.randint(-far//2, far//2)
        wd, ht = rng.randint(1, max(2, far//4)), rng.randint(1, max(2, far//4))
        if rng.random() < 0.3:
            wd, ht = rng.choice([(1, 1), (1, 7), (9, 1), (2, 3)])
        with guard(R, "makeSkyPolygonFromBBox"):
            if rng.random() < 0.5:
                b = geom.Box2I(geom.Point2I(x, y), geom.Extent2I(wd, ht))
                q = [4*x - 2, 4*y - 2, 4*(x + wd) - 2, 4*(y + ht) - 2]
            else:
                q = [4*x + rng.randrange(4), 4*y + rng.randrange(4)]
                q += [q[0] + 4*wd + rng.randrange(4), q[1] + 4*ht + rng.randrange(4)]
                b = geom.Box2D(geom.Point2D(q[0]/4, q[1]/4), geom.Point2D(q[2]/4, q[3]/4))
            e, p = call(makeSkyPolygonFromBBox, b, w) if rng.random() < 0.5 else call(makeSkyPolygonFromBBox, bbox=b, wcs=w)
            pts = []
            if not e:
                for v in p.getVertices():
                    s = w.skyToPixel(geom.SpherePoint(v))
                    o = [round(4*s.getX()), round(4*s.getY())]
                    pts.append([I(o[0]), I(o[1]), int(min(LIM, 1e6*max(abs(s.getX() - o[0]/4), abs(s.getY() - o[1]/4))))])
            R("boxpoly", b=q, err=e, pts=pts)


def suite_helpers(seed, tier, cases):
    n = 40 if tier == "quick" else 1000
    return [("wcs %d" % i, u_wcs, (5, 20)) for i in range(n)] + [("vec %d" % i, u_vec, (60,)) for i in range(n)] + \
        [("boxpoly %d" % i, u_boxpoly, (40,)) for i in range(n)]
