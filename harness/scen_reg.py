"""Registration in real data repositories (spec/TraceReg.tla)."""
import json
import math
import os
import shutil
import tempfile

from common import *  # noqa: F401,F403
from common import geom
import confs
from lsst.sphgeom import ConvexPolygon
from lsst.daf.butler import Butler, DimensionConfig, DataCoordinate
from lsst.daf.butler.registry import ConflictingDefinitionError

TMP = None
TEMPLATE = None


def template():
    """An empty repository, copied for every trace (coarse common pixelization: less rows)."""
    global TMP, TEMPLATE
    if TEMPLATE is None:
        TMP = tempfile.mkdtemp(prefix="verif_repo_", dir=os.environ.get("HOME") or None)
        dc = DimensionConfig()
        dc["skypix", "common"] = "htm1"
        TEMPLATE = os.path.join(TMP, "template")
        Butler.makeRepo(TEMPLATE, dimensionConfig=dc)
        import atexit
        atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
    return TEMPLATE


NREPO = 0


def fresh():
    global NREPO
    template()
    NREPO += 1
    p = os.path.join(TMP, "r%d_%d" % (os.getpid(), NREPO))
    shutil.copytree(TEMPLATE, p)
    return p


# -------------------------------------------------------------------- faults
class Fault(RuntimeError):
    pass


class Injector:
    """Counts the steps of a registration and fails at one of them."""

    def __init__(self, at=None, when="before", how="raise", exc=Fault):
        self.at, self.when, self.how, self.exc = at, when, how, exc
        self.n, self.hit, self.log = 0, False, []

    def fail(self):
        self.hit = True
        if self.how == "kill":
            os._exit(77)
        raise self.exc("injected")

    def step(self, name, f, after=True):
        k = self.n
        self.n += 1
        self.log.append(name)
        if self.at == k and (self.when == "before" or not after):
            self.fail()
        r = f()
        if self.at == k and self.when == "after" and after:
            self.fail()
        return r


class CM:
    def __init__(self, inj, name, cm):
        self.inj, self.name, self.cm = inj, name, cm

    def __enter__(self):
        r = self.inj.step(self.name + ".enter", self.cm.__enter__)
        return r

    def __exit__(self, t, v, tb):
        if t is not None:
            return self.cm.__exit__(t, v, tb)
        # nothing fails after a commit: fail before it, and let the manager see it
        k = self.inj.n
        self.inj.n += 1
        self.inj.log.append(self.name + ".exit")
        if self.inj.at == k:
            try:
                self.inj.fail()
            except BaseException as e:
                if not self.cm.__exit__(type(e), e, e.__traceback__):
                    raise
                return True
        return self.cm.__exit__(None, None, None)


class Proxy:
    """A butler or registry every call of which is a step."""

    def __init__(self, inj, obj, name):
        self.__dict__.update(_inj=inj, _obj=obj, _name=name)

    def __getattr__(self, a):
        v = getattr(self._obj, a)
        name = self._name + "." + a
        if a == "registry":
            return Proxy(self._inj, v, name)
        if callable(v) and not isinstance(v, type):
            def f(*args, **kw):
                if a == "transaction" or hasattr(v, "__wrapped__") and a.startswith("transaction"):
                    return CM(self._inj, name, v(*args, **kw))
                return self._inj.step(name, lambda: v(*args, **kw))
            return f
        return v


class GeometryFault:
    """Makes the n-th polygon of a tract fail."""

    def __init__(self, n, exc=Fault):
        self.left, self.exc, self.hit = n, exc, False

    def __enter__(self):
        from lsst.skymap.tractInfo import TractInfo
        self.cls = TractInfo
        self.orig = TractInfo.getOuterSkyPolygon
        me = self

        def poly(t):
            if me.left == 0:
                me.hit = True
                raise me.exc("injected")
            me.left -= 1
            return me.orig(t)
        TractInfo.getOuterSkyPolygon = poly
        return self

    def __exit__(self, *a):
        self.cls.getOuterSkyPolygon = self.orig


# ---------------------------------------------------------------- observation
def content(path, maps, names):
    """What a new process's butler sees in a repository."""
    b = Butler.from_config(path, writeable=False)
    reg = b.registry
    out = []
    sky = {r.name: r for r in reg.queryDimensionRecords("skymap")}
    tr, pa = {}, {}
    for n in sky:
        tr[n] = list(reg.queryDimensionRecords("tract", skymap=n))
        pa[n] = list(reg.queryDimensionRecords("patch", skymap=n))
    orphans = 0
    try:
        ds = list(reg.queryDatasets("skyMap", collections=...))
    except Exception:
        ds = []      # not a known dataset type (yet)
    for d in ds:
        if d.dataId["skymap"] not in sky:
            orphans += 1
    # rows and files that belong to no registered map
    if not sky:
        orphans += len(list(reg.queryDimensionRecords("tract"))) + len(list(reg.queryDimensionRecords("patch")))
    for n in sorted(sky):
        r = sky[n]
        c = dict(name=n, sha=r.hash.hex() if r.hash else "", rec=[I(r.tract_max), I(r.patch_nx_max), I(r.patch_ny_max)],
                 tracts=sorted(I(t.id) for t in tr[n]), patches=[], tregions=0, pregions=0, stored="", same=False, run="", sid="")
        m = next((x for x in maps.values() if x.getSha1() == r.hash), None)
        by = {}
        for p in pa[n]:
            by.setdefault(p.tract, []).append(p)
        c["patches"] = [[[I(p.id), I(p.cell_x), I(p.cell_y)] for p in by.get(t, [])] for t in c["tracts"]]
        if set(by) - set(c["tracts"]):
            c["patches"].append([])
        if m is not None:
            for t in tr[n]:
                ok = 0 <= t.id < len(m) and t.region is not None and poly_of_box(m[t.id].getBBox(), m[t.id].getWcs(), t.region)
                c["tregions"] += not ok
            for t, ps in by.items():
                for p in ps:
                    try:
                        q = m[t][p.cell_x, p.cell_y]
                        ok = p.region is not None and poly_of_box(q.getOuterBBox(), m[t].getWcs(), p.region)
                    except Exception:
                        ok = False
                    c["pregions"] += not ok
        refs = [d for d in ds if d.dataId["skymap"] == n]
        if len(refs) == 1:
            c["sid"], c["run"] = str(refs[0].id), refs[0].run
            try:
                x = b.get("skyMap", skymap=n, collections="skymaps")
                c["stored"] = x.getSha1().hex()
                c["same"] = m is not None and type(x) is type(m) and x == m and len(x) == len(m)
            except Exception:
                pass
        out.append(c)
    return out, orphans


def poly_of_box(box_, wcs, region):
    """The region has the corners of the box."""
    x0, y0, w, h = box_.getMinX() - 0.5, box_.getMinY() - 0.5, box_.getWidth(), box_.getHeight()
    vs = [tuple(v[i] for i in range(3)) for v in region.getVertices()] if hasattr(region, "getVertices") else []
    if len(vs) != 4:
        return False
    for x, y in ((x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)):
        u = wcs.pixelToSky(geom.Point2D(x, y)).getVector()
        if not any(max(abs(u[i] - v[i]) for i in range(3)) < 1e-10 for v in vs):
            return False
    return True


def has_polygon(box_, wcs):
    x0, y0, w, h = box_.getMinX() - 0.5, box_.getMinY() - 0.5, box_.getWidth(), box_.getHeight()
    try:
        us = [wcs.pixelToSky(geom.Point2D(x, y)).getVector() for x, y in ((x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h))]
        if not all(math.isfinite(u[i]) for u in us for i in range(3)):
            return False
        return poly_of_box(box_, wcs, ConvexPolygon(us))
    except Exception:
        return False


STYLES = [lambda n: n, lambda n: n.upper(), lambda n: n.title() + "_HSC-v1", lambda n: "DC2/" + n + ".Cosmos",
          lambda n: "Rings" if n[-1:] == "1" else "rings" if n[-1:] == "2" else n.capitalize(), lambda n: "a b " + n]


class World:
    def __init__(self, R, rng, descs):
        self.R, self.rng = R, rng
        self.style = rng.choice(STYLES)
        self.descs = descs
        self.path = fresh()
        self.butler = None
        R("begin")
        self.ref = {}
        for k, d in descs.items():
            m = self.build(k)
            self.ref[k] = m
            R("map", k=k, nums=[IL(t.getNumPatches(), 2) for t in m], sha=m.getSha1().hex())

    def build(self, k):
        return confs.build(self.descs[k])

    def close(self):
        self.butler = None
        shutil.rmtree(self.path, ignore_errors=True)

    def live(self, new):
        if self.butler is None or new:
            self.butler = Butler.from_config(self.path, writeable=True)
        return self.butler

    def map(self, k, new=True):
        """A map to register: usually not one used before."""
        return self.build(k) if new else self.ref[k]

    def reg(self, k, name, inj=None, geo=None, newbutler=False, used=False):
        inj = inj or Injector()
        name = self.style(name)
        m = self.map(k, not used)
        b = self.live(newbutler or inj.how == "kill")
        err = []
        hit = False

        def go():
            try:
                if geo is None:
                    m.register(name, Proxy(inj, b, "butler"))
                else:
                    with geo:
                        m.register(name, Proxy(inj, b, "butler"))
                return []
            except (Exception, KeyboardInterrupt) as e:
                return names(e) or [type(e).__name__]
        if inj.how == "kill":
            pid = os.fork()
            if pid == 0:
                try:
                    b2 = Butler.from_config(self.path, writeable=True)
                    e = []
                    try:
                        m.register(name, Proxy(inj, b2, "butler"))
                    except Exception as x:
                        e = names(x)
                    os._exit(0 if not e else (3 if "ConflictingDefinitionError" in e else 4))
                finally:
                    os._exit(4)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            hit = code == 77
            err = ["Killed"] if hit else ([] if code == 0 else (["ConflictingDefinitionError"] if code == 3 else ["Exception"]))
            self.butler = None
        else:
            e2, err = call(go, limit=30)
            err = err if err is not None else e2
            hit = inj.hit or bool(geo and geo.hit)
        self.R("reg", m=k, name=name, err=err, hit=hit, how=inj.how if inj.at is not None else "", at=-1 if inj.at is None else inj.at,
               when=inj.when, step=inj.log[-1] if inj.hit and inj.log else "")
        return inj

    def dump(self):
        err, v = call(lambda: content(self.path, self.ref, None), limit=30)
        if err:
            self.R("crash", where="reading the repository", ex=err[0], loc="")
            return []
        self.R("repo", content=v[0], orphans=v[1])
        return [c["name"] for c in v[0]]

    def packs(self, name, k):
        from lsst.skymap.packers import SkyMapDimensionPacker
        b = Butler.from_config(self.path, writeable=False)
        m = self.ref[k]
        fx = b.registry.expandDataId(skymap=name)
        p = SkyMapDimensionPacker(fx, b.dimensions.conform(["tract", "patch"]))
        c = SkyMapDimensionPacker.from_config(fx, SkyMapDimensionPacker.ConfigClass())
        n = len(m)
        ts = {0, n - 1, max(range(n), key=lambda i: len(m[i])), self.rng.randrange(n)}
        for t in sorted(ts):
            ny = m[t].getNumPatches()
            for q in sorted({0, ny[0]*ny[1] - 1, self.rng.randrange(ny[0]*ny[1])}):
                did = DataCoordinate.standardize(skymap=name, tract=t, patch=q, universe=b.dimensions)

                def go():
                    v = p.pack(did)
                    return v, p.unpack(v) == did and c.pack(did) == v
                err, v = call(go)
                self.R("rpack", name=name, tract=t, patch=q, err=err, val=BAD if err else I(v[0]), back=bool(v and v[1]))


# --------------------------------------------------------------- descriptions
def small(rng, cls=None):
    """A map with few patches, quick to register."""
    cls = cls or rng.choice(["discrete", "discrete", "rings", "dodeca", "equat", "healpix"])
    for _ in range(100):
        d = confs.rand_desc(rng, cls=cls, maxpatch=3)
        if cls == "dodeca":
            d["top"]["tractOverlap"] = min(d["top"]["tractOverlap"], 4.0)
            d["top"]["projection"] = "STG"
        if cls == "healpix":
            d["top"]["log2NSide"] = 0 if rng.random() < 0.6 else 1
            d["top"]["tractOverlap"] = 0.5
            d["top"]["projection"] = "STG"
        if cls == "equat":
            d["top"]["projection"] = "CEA"
        if cls == "rings":
            d["top"]["numRings"] = rng.choice([2, 3, 4])
            d["top"]["projection"] = rng.choice(["STG", "TAN"])
            d["top"]["pixelScale"] = round(d["top"]["pixelScale"]*2, 3)
        if cls == "discrete":
            r = d["top"]["radiusList"]
            for j in range(len(r)):
                r[j] = round(r[j]*(0.5 + rng.random()), 5)
            d["top"]["raList"] = [x if x < 359 else 10.0 for x in d["top"]["raList"]]
            d["top"]["projection"] = "TAN"
        # cells multiply nothing here: cells are not registered
        try:
            m = confs.build(d)
            if sum(len(t) for t in m) > 600:
                continue
            # boxes must have polygons with their corners on the sky: not so of a box that
            # reaches beyond what the projection can invert
            if not all(has_polygon(t.getBBox(), t.getWcs()) and all(has_polygon(p.getOuterBBox(), t.getWcs()) for p in t) for t in m):
                continue
        except Exception:
            continue
        return d
    return dict(cls="discrete", tb="legacy", sub=dict(patchInnerDimensions=[100, 80], patchBorder=10),
                top=dict(raList=[10.0, 20.0, 30.0], decList=[0.0, 40.0, -60.0], radiusList=[0.1, 0.3, 0.2], pixelScale=6.0,
                         projection="TAN", tractOverlap=0.01))


def three(rng):
    """Three different maps; two of them alike but for an option."""
    a = small(rng, "discrete")
    b = json.loads(json.dumps(a))
    if a["tb"] == "legacy":
        b["sub"]["patchBorder"] = a["sub"]["patchBorder"] + 1
    else:
        b["sub"]["cellBorder"] = a["sub"]["cellBorder"] + 1
    c = small(rng)
    ds = [a, b, c]
    rng.shuffle(ds)
    return {i + 1: d for i, d in enumerate(ds)}


EXCS = [Fault, OSError, KeyboardInterrupt, ConflictingDefinitionError, ValueError]


def calls(d):
    """Steps of an undisturbed registration."""
    p = fresh()
    inj = Injector()
    try:
        confs.build(d).register("x", Proxy(inj, Butler.from_config(p, writeable=True), "butler"))
    except Exception:
        pass
    shutil.rmtree(p, ignore_errors=True)
    return inj.log


def ncalls(d):
    return max(1, len(calls(d)))


def history_unit(R, rng, hist):
    ds = three(rng)
    W = World(R, rng, ds)
    N = {k: ncalls(d) for k, d in ds.items()}
    try:
        for m, n, f in hist:
            name = "name%d" % n
            with guard(R, "register"):
                if f == 0:
                    W.reg(m, name, used=rng.random() < 0.3, newbutler=rng.random() < 0.3)
                else:
                    at = min(N[m] - 1, max(0, round((f - 1 + rng.random())/7.0*(N[m] - 1))))
                    W.reg(m, name, Injector(at, rng.choice(["before", "after"]), rng.choice(["raise", "raise", "kill"]), rng.choice(EXCS)),
                          newbutler=rng.random() < 0.3)
                W.dump()
        # in the end everything can be registered
        with guard(R, "register"):
            W.reg(1, "final1")
            W.dump()
            W.reg(2, "name1", newbutler=True)
            W.reg(3, "name2")
            W.dump()
    finally:
        W.close()


def suite_hist(seed, tier, cases):
    hs = [json.loads(x) for x in open(cases)]
    r = rng_for(seed, "histories")
    # with failures at all steps
    pick = r.sample(hs, min(len(hs), 48 if tier == "quick" else 1500))
    return [("history %d" % i, history_unit, (h,)) for i, h in enumerate(pick)]


def content_unit(R, rng, d):
    W = World(R, rng, {1: d})
    try:
        with guard(R, "register"):
            W.reg(1, "sky")
            if W.style("sky") in W.dump():
                W.packs(W.style("sky"), 1)
            W.reg(1, "sky", newbutler=rng.random() < 0.5)
            W.reg(1, "other")
            W.dump()
    finally:
        W.close()


def oblong(rng, nx, ny):
    """A map of one tract of so many patches."""
    if rng.random() < 0.5:
        nx, ny = ny, nx
    for j in range(60):
        D = max(nx, ny)*(12 + j)
        d = dict(cls="discrete", tb="legacy", sub=dict(patchInnerDimensions=[-(-D//nx), -(-D//ny)], patchBorder=rng.choice([0, 2])),
                 top=dict(raList=[round(rng.uniform(1, 350), 3)], decList=[round(rng.uniform(-80, 80), 3)], radiusList=[0.5],
                          pixelScale=round(3600.0/(D - 2), 6), projection="TAN", tractOverlap=0.0))
        try:
            if tuple(confs.build(d)[0].getNumPatches()) == (nx, ny):
                return d
        except Exception:
            pass
    return d


def tracts(rng, n):
    """A map of so many tracts, of a patch or a few; the last is the largest."""
    return dict(cls="discrete", tb="legacy", sub=dict(patchInnerDimensions=[200, 150], patchBorder=10),
                top=dict(raList=[round(rng.uniform(1, 350), 3) for _ in range(n)], decList=[round(rng.uniform(-80, 80), 3) for _ in range(n)],
                         radiusList=[rng.choice([0.1, 0.1, 0.1, 0.2]) for _ in range(n - 1)] + [0.4], pixelScale=6.0, projection="TAN", tractOverlap=0.0))


# (records are passed on in lots: one more than a round number of them, and just that number)
LOTS = [(3, 17), (1, 101), (3, 43), (3, 67), (1, 251), (1, 257), (3, 167), (19, 27), (7, 143), (25, 41), (10, 10), (25, 40)]


def suite_content(seed, tier, cases):
    rng = rng_for(seed, "content")
    units = []
    for a, b in LOTS:
        units.append(("content %d x %d" % (a, b), content_unit, (oblong(rng, a, b),)))
    for n in ((51, 101, 129, 257) if tier == "quick" else (51, 101, 129, 201, 251, 256, 257, 501, 513, 1000, 1001, 1025)):
        units.append(("content %d tracts" % n, content_unit, (tracts(rng, n),)))
    for cls in ("discrete", "rings", "dodeca", "equat", "healpix"):
        for i in range(3 if tier == "quick" else 24):
            d = small(rng, cls)
            if cls == "healpix" and i < 2:      # tracts that are wide and tracts that are high
                for _ in range(60):
                    try:
                        ns = [tuple(t.getNumPatches()) for t in confs.build(d)]
                        if (max(n[0] for n in ns), max(n[1] for n in ns)) not in ns:
                            break
                    except Exception:
                        break
                    d = small(rng, cls)
            units.append(("content %s %d" % (cls, i), content_unit, (d,)))
    return units


def fault_unit(R, rng, d, at, when, how, exc):
    W = World(R, rng, {1: d})
    try:
        with guard(R, "register"):
            inj = W.reg(1, "sky", Injector(at, when, how, exc))
            W.dump()
            W.reg(1, "sky", newbutler=rng.random() < 0.5)
            W.dump()
    finally:
        W.close()


def geo_unit(R, rng, d, n):
    W = World(R, rng, {1: d})
    try:
        with guard(R, "register"):
            W.reg(1, "sky", geo=GeometryFault(n))
            W.dump()
            W.reg(1, "sky")
            W.dump()
    finally:
        W.close()


def suite_faults(seed, tier, cases):
    """Every step of a registration fails, before and after, with an error or the end of the process."""
    rng = rng_for(seed, "faults")
    units = []
    for j in range(1 if tier == "quick" else 12):
        d = small(rng, "discrete") if j < 1 else small(rng)
        if j == 0:
            for k in ("raList", "decList", "radiusList"):
                d["top"][k] = (d["top"][k]*3)[:3] if k != "decList" else [5.0, -30.0, 60.0]
            d["top"]["raList"] = [10.0, 100.0, 200.0]
        try:
            n = ncalls(d)
        except Exception:
            n = 12
        for at in range(min(n, 30)):
            for e, exc in enumerate(EXCS):
                # each kind of failure at each step of the first map
                if j == 0 or e == (at + j) % len(EXCS):
                    units.append(("fault %d %d before %s" % (j, at, exc.__name__), fault_unit, (d, at, "before", "raise", exc)))
            units.append(("fault %d %d after" % (j, at), fault_unit, (d, at, "after", "raise", EXCS[(at + j) % len(EXCS)])))
            units.append(("kill %d %d" % (j, at), fault_unit, (d, at, rng.choice(["before", "after"]), "kill", Fault)))
        for k in range(3):
            units.append(("geometry %d %d" % (j, k), geo_unit, (d, k)))
    return units
