"""Observations of tracts, patches and cells (events of spec/TraceTract.tla)."""
import math

from common import *  # noqa: F401,F403
from common import geom, afwGeom, np
import confs


def eq(a, b):
    try:
        return bool(a == b) and not bool(a != b)
    except Exception:
        return False


def allforms(o, pairs):
    """Names of the properties that do not agree with their methods."""
    bad = []
    for meth, attr in pairs:
        try:
            a, b = getattr(o, meth)(), getattr(o, attr)
        except Exception:
            bad.append(attr)
            continue
        if isinstance(a, float) and a != a and b != b:
            continue
        if not eq(a, b):
            bad.append(attr)
    return bad


def agreed(o, meth, attr):
    """What both the method and the property say."""
    a, b = getattr(o, meth)(), getattr(o, attr)
    if not eq(a, b):
        raise ValueError("%s and %s differ" % (meth, attr))
    return a


def tid(t):
    """The number of a tract."""
    i = t.getId()
    return I(i) if eq(i, t.tract_id) else BAD


def also(name, ok):
    return [] if ok else [name]


TRACT_FORMS = [("getBBox", "bbox"), ("getCtrCoord", "ctr_coord"), ("getId", "tract_id"), ("getNumPatches", "num_patches"),
               ("getPatchBorder", "patch_border"), ("getPatchInnerDimensions", "patch_inner_dimensions"),
               ("getTractOverlap", "tract_overlap"), ("getWcs", "wcs"), ("getVertexList", "vertex_list")]
PATCH_FORMS = [("getIndex", "index"), ("getSequentialIndex", "sequential_index"), ("getWcs", "wcs"),
               ("getInnerBBox", "inner_bbox"), ("getOuterBBox", "outer_bbox"), ("getNumCells", "num_cells"),
               ("getCellBorder", "cell_border"), ("getCellInnerDimensions", "cell_inner_dimensions")]
CELL_FORMS = [("getIndex", "index"), ("getSequentialIndex", "sequential_index"), ("getWcs", "wcs"),
              ("getInnerBBox", "inner_bbox"), ("getOuterBBox", "outer_bbox")]


def tract(R, k, t, g):
    """g: grid options (confs.grid_conf)."""
    n = IL(t.getNumPatches(), 2)
    inner = t.getPatchInnerDimensions()
    R("tract", k=k, c=g, n=n, box=box(t.getBBox()), inner=IL([inner[0], inner[1]], 2), border=I(t.getPatchBorder()),
      len=I(len(t)), forms=allforms(t, TRACT_FORMS) + also("num_patches", eq(t.getNumPatches().x, n[0]) and eq(t.getNumPatches().y, n[1])))
    return n


def _idx(v):
    return IL(v, 2)


def acc_patch(t, form, a):
    from lsst.skymap import Index2D
    if form == "pair":
        return t.getPatchInfo((a[0], a[1]))
    if form == "list":
        return t.getPatchInfo([a[0], a[1]])
    if form == "idx":
        return t.getPatchInfo(Index2D(x=a[0], y=a[1]))
    if form == "item":
        return t[(a[0], a[1])]
    if form == "itemidx":
        return t[Index2D(a[0], a[1])]
    if form == "np":
        return t[np.int64(a[0]), np.int32(a[1])]
    if form == "seq":
        return t.getPatchInfo(a[0])
    if form == "itemseq":
        return t[a[0]]
    if form == "npseq":
        return t.getPatchInfo(np.int64(a[0]))
    raise KeyError(form)


PAIRS = ["pair", "list", "idx", "item", "itemidx", "np"]
SEQS = ["seq", "itemseq", "npseq"]


def patch(R, k, t, form, a, p=None):
    """Access a patch in a form; -> the patch or None."""
    err = []
    if p is None:
        err, p = call(acc_patch, t, form, a)
    d = dict(k=k, form=form, a=[I(v) for v in a], err=err, idx=[BAD, BAD], seq=BAD, seqof=BAD, inner=[BAD]*4, outer=[BAD]*4,
             ncells=[BAD, BAD], len=BAD, cdims=[BAD, BAD], cb=BAD, forms=["?"])
    if not err:
        err2, so = call(t.getSequentialPatchIndex, p)
        try:
            d.update(idx=_idx(p.getIndex()), seq=I(p.getSequentialIndex()), seqof=I(so) if not err2 else BAD,
                     inner=box(p.getInnerBBox()), outer=box(p.getOuterBBox()), ncells=IL(p.getNumCells(), 2), len=I(len(p)),
                     cdims=IL([p.getCellInnerDimensions()[0], p.getCellInnerDimensions()[1]], 2), cb=I(p.getCellBorder()),
                     forms=allforms(p, PATCH_FORMS) + also("wcs", eq(p.getWcs(), t.getWcs()))
                     + also("index", eq(p.getIndex().x, p.getIndex()[0]) and eq(p.getIndex().y, p.getIndex()[1])))
        except Exception as e:
            d["err"] = names(e)
    R("patch", **d)
    return p if not d["err"] else None


def acc_cell(p, form, a):
    from lsst.skymap import Index2D
    if form == "pair":
        return p.getCellInfo((a[0], a[1]))
    if form == "list":
        return p.getCellInfo([a[0], a[1]])
    if form == "idx":
        return p.getCellInfo(Index2D(x=a[0], y=a[1]))
    if form == "item":
        return p[(a[0], a[1])]
    if form == "itemidx":
        return p[Index2D(a[0], a[1])]
    if form == "np":
        return p[np.int64(a[0]), np.int32(a[1])]
    if form == "seq":
        return p.getCellInfo(a[0])
    if form == "itemseq":
        return p[a[0]]
    if form == "npseq":
        return p.getCellInfo(np.int64(a[0]))
    raise KeyError(form)


def cell(R, k, p, pidx, form, a, c=None):
    err = []
    if c is None:
        err, c = call(acc_cell, p, form, a)
    d = dict(k=k, p=list(pidx), form=form, a=[I(v) for v in a], err=err, idx=[BAD, BAD], seq=BAD, seqof=BAD, inner=[BAD]*4,
             outer=[BAD]*4, forms=["?"])
    if not err:
        err2, so = call(p.getSequentialCellIndex, c)
        try:
            d.update(idx=_idx(c.getIndex()), seq=I(c.getSequentialIndex()), seqof=I(so) if not err2 else BAD,
                     inner=box(c.getInnerBBox()), outer=box(c.getOuterBBox()),
                     forms=allforms(c, CELL_FORMS) + also("wcs", eq(c.getWcs(), p.getWcs())))
        except Exception as e:
            d["err"] = names(e)
    R("cell", **d)
    return c if not d["err"] else None


def conv(R, k, fn, f, arg, a):
    err, v = call(f, arg)
    res = [BAD]
    if not err:
        if fn in ("s2p", "cs2p"):
            res = IL(v, 2)
        else:
            res = [I(v)]
    R("conv", k=k, fn=fn, a=[I(x) for x in a], err=err, res=res)


def iterate(R, k, o, cells, limit=400):
    """Iterates a tract (patches) or a patch (cells)."""
    pairs, seqs, done = [], [], True

    def go():
        nonlocal done
        for v in o:
            if len(pairs) >= limit:
                done = False
                break
            pairs.append(_idx(v.getIndex()))
            seqs.append(I(v.getSequentialIndex()))
    err, _ = call(go)
    if err:
        R("crash", where="iteration", ex=err[0], loc="")
        return
    R("iter", k=k, cells=bool(cells), pairs=pairs, seqs=seqs, all=done)
    # and while it is iterated a second time, and asked other things
    got, more = [], []

    def both():
        a, b = iter(o), iter(o)
        for i, v in enumerate(a):
            if i >= min(limit, 60):
                break
            got.append(v)
            if i % 3 != 1:
                w = next(b, None)
                if w is not None:
                    more.append(w)
            if i % 4 == 0:
                len(o), o[len(o) - 1]
    err, _ = call(both)
    if err:
        R("crash", where="two iterations", ex=err[0], loc="")
        return
    for vs in (got, more):
        R("iter", k=k, cells=bool(cells), pairs=[_idx(v.getIndex()) for v in vs], seqs=[I(v.getSequentialIndex()) for v in vs],
          all=vs is got and len(vs) < min(limit, 60))


# -------------------------------------------------------------------- lookups
def pix_of(t, coord):
    """Pixel position by the tract's WCS: (projectable, [fx, mx, fy, my])."""
    try:
        p = t.getWcs().skyToPixel(coord)
    except Exception:
        return False, [0, 0, 0, 0]
    if not (math.isfinite(p.getX()) and math.isfinite(p.getY())):
        return False, [0, 0, 0, 0]
    return True, micro(p.getX()) + micro(p.getY())


def locate(R, k, t, coord):
    ok, px = pix_of(t, coord)
    ce, cv = call(t.contains, coord)
    con = "E" if ce else ("T" if cv else "F")
    fe, p = call(t.findPatch, coord)
    idx = [BAD, BAD]
    if not fe:
        try:
            idx = _idx(p.getIndex())
        except Exception:
            idx = [BAD, BAD]
    R("locate", k=k, proj=ok, pix=px, con=con, conErr=ce, err=fe, idx=idx)


def plist(R, k, t, coords, kind=list):
    pix = []
    for c in coords:
        ok, px = pix_of(t, c)
        if ok:
            pix.append(px)
    e, v = call(t.findPatchList, kind(coords))
    res, sized = [], True
    if not e:
        try:
            v = v if hasattr(v, "__len__") else list(v)
            sized = bool(v) == (len(v) > 0)
            for p in v:
                b = box(p.getInnerBBox())
                res.append(_idx(p.getIndex()) + b[:2])
        except Exception as x:
            e = names(x)
    R("plist", k=k, pix=pix, err=e, res=res, sized=sized)
    return res


# -------------------------------------------------------------------- placement
def sep(a, b):
    """Separation of two SpherePoints in radians, accurate for small angles."""
    u, v = a.getVector(), b.getVector()
    return math.sqrt(sum((u[i] - v[i])**2 for i in range(3)))


def ideal_wcs(d, crval):
    top = confs.full(d)[0]
    cd = afwGeom.makeCdMatrix(scale=geom.Angle(top["pixelScale"], geom.arcseconds),
                              orientation=geom.Angle(top["rotation"], geom.degrees), flipX=False)
    return afwGeom.makeSkyWcs(crpix=geom.Point2D(0, 0), crval=crval, cdMatrix=cd, projection=top["projection"])


def nti(rad):
    if not math.isfinite(rad):
        return LIM
    return int(min(LIM, round(abs(rad)*NT)))


def place(R, k, t, d, i, rng):
    """Where a tract is, against the configuration d."""
    top = confs.full(d)[0]
    ctr = t.getCtrCoord()
    crval = geom.SpherePoint(ctr.getLongitude(), geom.Angle(0.0)) if d["cls"] == "equat" else ctr
    w0 = ideal_wcs(d, crval)
    w = t.getWcs()
    half = math.radians(top["tractOverlap"])/2
    pts, dense = [], []

    def circle(c, r, n, out):
        for j in range(n):
            out.append(w0.skyToPixel(c.offset(geom.Angle(2*math.pi*j/n), geom.Angle(r))))
    if d["cls"] in ("discrete", "rings"):
        rad = math.radians(top["radiusList"][i]) if d["cls"] == "discrete" else 0.5*confs.ringsize(top["numRings"])
        circle(ctr, rad + 2*half, 4, pts)
        circle(ctr, rad + 2*half, 360, dense)
    else:
        for v in t.getVertexList():
            if top["tractOverlap"] == 0:
                pts.append(w0.skyToPixel(v))
            else:
                circle(v, half, 24, pts)
                circle(v, half, 240, dense)

    def bb(ps):
        if any(not (math.isfinite(p.getX()) and math.isfinite(p.getY())) for p in ps):
            return None
        return (min(p.getX() for p in ps), min(p.getY() for p in ps), max(p.getX() for p in ps), max(p.getY() for p in ps))
    a = bb(pts)
    if a is None:
        return False
    b = bb(pts + dense)
    if b is None:
        b = tuple(a)
    # the shift from the ideal WCS
    tests = []
    for _ in range(40):
        s = w0.pixelToSky(geom.Point2D(rng.uniform(a[0], a[2]), rng.uniform(a[1], a[3])))
        if len(tests) < 6 and math.isfinite(s.getLongitude().asRadians()):
            q = w0.skyToPixel(s)
            if math.isfinite(q.getX()) and math.isfinite(q.getY()):
                tests.append(s)
    tests.append(crval)
    sh, inv = [], 0.0
    for s in tests:
        p, q = w.skyToPixel(s), w0.skyToPixel(s)
        sh.append((p.getX() - q.getX(), p.getY() - q.getY()))
        if math.isfinite(p.getX()) and math.isfinite(p.getY()):
            inv = max(inv, sep(w.pixelToSky(p), s))
    if not all(math.isfinite(v) for x in sh for v in x):
        sh = [(0.0, 0.0), (1e9, 1e9)]
    cx, cy = sh[-1]
    ix, iy = (round(cx), round(cy)) if abs(cx) < 1e9 and abs(cy) < 1e9 else (0, 0)
    dev = max(max(abs(x - cx), abs(y - cy)) for x, y in sh)
    sdev = max(abs(cx - ix), abs(cy - iy))
    try:
        ov = abs(t.getTractOverlap().asDegrees() - top["tractOverlap"]) < 1e-9
    except Exception:
        ov = False
    R("place", k=k, cls=d["cls"], need=[micro(v) for v in a], most=[micro(v) for v in b], shift=[I(ix), I(iy)],
      wcsdev=int(min(LIM, dev*1e6)), shiftdev=int(min(LIM, sdev*1e6)), invdev=nti(inv),
      crval=nti(sep(w.getSkyOrigin(), crval)), ctr=0, overlap=bool(ov))
    return True


# -------------------------------------------------------------------- sky regions
def poly_points(poly, w):
    """Vertices of a polygon in half pixels of a WCS."""
    out = []
    for v in poly.getVertices():
        p = w.skyToPixel(geom.SpherePoint(v))
        x, y = halfpix(p.getX()), halfpix(p.getY())
        out.append([x[0], y[0], max(x[1], y[1])])
    return out


def same_poly(a, b):
    va, vb = [tuple(v[i] for i in range(3)) for v in a.getVertices()], [tuple(v[i] for i in range(3)) for v in b.getVertices()]
    if len(va) != len(vb):
        return False
    return all(any(max(abs(x[i] - y[i]) for i in range(3)) < 1e-13 for y in vb) for x in va)


def poly(R, k, what, f, w, p=(0, 0), c=(0, 0), other=None):
    """f() -> polygon, judged in the pixels of w; other() must be the same."""
    e, v = call(f)
    pts, forms = [], True
    if not e:
        try:
            pts = poly_points(v, w)
            if other is not None:
                forms = same_poly(v, other())
        except Exception as x:
            e = names(x)
    R("poly", k=k, what=what, p=list(p), c=list(c), err=e, pts=pts, forms=forms)


def verts(R, k, t, explicit, region_box):
    """The vertex list and the inner regions of a tract."""
    w = t.getWcs()
    pts = []
    vs = list(t.getVertexList())
    if explicit:
        for s in vs:
            p = w.skyToPixel(s)
            o = []
            for x in (p.getX(), p.getY()):
                n = round(2*x)      # nearest half pixel
                # corners are at odd multiples of half a pixel
                n = n if n % 2 else (n - 1 if 2*x < n else n + 1)
                o.append((int(n), int(max(-LIM, min(LIM, round((x - n/2)*1e6))))))
            pts.append([o[0][0], o[1][0], o[0][1], o[1][1]])
    he, hull = call(t.getInnerSkyPolygon)
    same, dev = False, 0.0
    if not he:
        hv = list(hull.getVertices())
        sv = [s.getVector() for s in vs]

        def near(a, bs):
            return min((max(abs(a[i] - b[i]) for i in range(3)) for b in bs), default=9.0)
        dev = max(max(near(a, sv) for a in hv), max(near(a, hv) for a in sv))
        same = len(hv) == len(sv)
        try:
            same = same and same_poly(hull, t.inner_sky_polygon)
        except Exception:
            same = False
    re, reg = call(t.getInnerSkyRegion)
    ok = False
    if not re:
        try:
            if region_box:
                ok = type(reg).__name__ == "Box" and reg == t.inner_sky_region
            else:
                ok = type(reg).__name__ == "ConvexPolygon" and not he and same_poly(reg, hull) \
                    and same_poly(t.inner_sky_region, reg)
        except Exception:
            ok = False
    R("verts", k=k, explicit=bool(explicit), pts=pts, hullErr=he, hullSame=bool(same), hullDev=int(min(LIM, dev*1e12)) if dev == dev else LIM,
      regErr=re, regOK=bool(ok))
