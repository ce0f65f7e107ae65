"""Schedules of spec/MCSkySystem.tla replayed on real sky maps (spec/TraceSys.tla)."""
import atexit
import copy
import gc
import hashlib
import json
import os
import pickle
import struct

from common import *  # noqa: F401,F403
from common import geom, np
import confs
import obs


# -------------------------------------------------- answers of an undisturbed map
def plain(o):
    """Values only: a numpy integer is the same answer as an int."""
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, np.generic):
        return o.item()
    return o


def dg(o):
    return hashlib.sha1(repr(plain(o)).encode()).hexdigest()[:16]


def _b(b):
    return (b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight())


def _s(c):
    return (repr(c.getLongitude().asRadians()), repr(c.getLatitude().asRadians()))


def _try(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return type(e).__name__


ODD = iter(range(10**9))


def twice(o, n):
    """Iterates twice at once, the one a bit ahead; an answer like no other when that goes wrong."""
    def go():
        a, b, out = iter(o), iter(o), []
        next(a)
        for _ in range(n):
            x, y = next(b), next(a, None)
            out.append(tuple(x.getIndex()))
            if y is None:
                break
        return out
    got = _try(go)
    want = [tuple(p.getIndex()) for _, p in zip(range(n), o)]
    return "ok" if got == want[:len(got)] and len(got) == min(len(want), n) else "odd %d" % next(ODD)


def tract_answers(t, ptrng=None):
    """Everything a tract reports."""
    n = t.getNumPatches()
    w = t.getWcs()
    box_ = t.getBBox()
    out = [t.getId(), _b(box_), tuple(n), tuple(t.getPatchInnerDimensions()), t.getPatchBorder(), _s(t.getCtrCoord()),
           [_s(v) for v in t.getVertexList()], repr(t.getTractOverlap().asRadians()), len(t)]
    pts = []
    for fx, fy in ((0.5, 0.5), (0.03, 0.1), (0.9, 0.62), (1.3, 0.5)):
        pts.append(w.pixelToSky(geom.Point2D(box_.getWidth()*fx, box_.getHeight()*fy)))
    out += [_s(p) for p in pts]
    nx, ny = n
    for x, y in sorted({(0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1), (nx//2, ny//3)}):
        p = t[x, y]
        out.append((tuple(p.getIndex()), p.getSequentialIndex(), _b(p.getInnerBBox()), _b(p.getOuterBBox()),
                    t.getSequentialPatchIndex(p), t.getSequentialPatchIndexFromPair((x, y)),
                    tuple(t.getPatchIndexPair(p.getSequentialIndex())), tuple(p.getNumCells()) if p.getCellInnerDimensions()[0] else 0))
        q = t.getPatchInfo(p.getSequentialIndex())
        out.append(tuple(q.getIndex()))
        if p.getCellInnerDimensions()[0]:
            cx, cy = p.getNumCells()
            c = p[cx - 1, cy//2]
            out.append((tuple(c.getIndex()), c.getSequentialIndex(), _b(c.getInnerBBox()), _b(c.getOuterBBox())))
    for a in ((nx, 0), (0, ny), (-1, 0), nx*ny):
        out.append(_try(lambda: tuple(t[a].getIndex())))
    for c in pts:
        out.append((_try(t.contains, c), _try(lambda: tuple(t.findPatch(c).getIndex()))))
    out.append(_try(lambda: [tuple(p.getIndex()) for p in t.findPatchList(pts[:3])]))
    out.append([tuple(p.getIndex()) for _, p in zip(range(40), t)])
    out.append(twice(t, 12))
    out.append(_try(lambda: [tuple(v) for v in t.getOuterSkyPolygon().getVertices()]))
    out.append(_try(lambda: [tuple(v) for v in t.getInnerSkyPolygon().getVertices()]))
    out.append(_try(lambda: t.getInnerSkyRegion().encode().hex()))
    out.append(_try(lambda: [t.tract_id, _b(t.bbox), tuple(t.num_patches), tuple(t.patch_inner_dimensions), t.patch_border,
                             _s(t.ctr_coord), [_s(v) for v in t.vertex_list], _s(t.wcs.pixelToSky(geom.Point2D(7.5, -3.25)))]))
    return dg(out)


def patch_of(t):
    nx, ny = t.getNumPatches()
    return t[nx//2, ny//3]


def patch_answers(p):
    """Everything a patch and its cells report."""
    out = [tuple(p.getIndex()), p.getSequentialIndex(), _b(p.getInnerBBox()), _b(p.getOuterBBox()),
           tuple(p.getCellInnerDimensions()), p.getCellBorder()]
    w = p.getWcs()
    b = p.getInnerBBox()
    out.append(_s(w.pixelToSky(geom.Point2D(b.getMinX(), b.getMinY()))))
    out.append(_try(lambda: [tuple(v) for v in p.getOuterSkyPolygon().getVertices()]))
    out.append(_try(lambda: [tuple(v) for v in p.getInnerSkyPolygon().getVertices()]))
    if p.getCellInnerDimensions()[0]:
        nx, ny = p.getNumCells()
        out += [(nx, ny), len(p)]
        for x, y in ((0, 0), (nx - 1, ny//2), (nx//2, ny - 1)):
            c = p[x, y]
            out.append((tuple(c.getIndex()), c.getSequentialIndex(), _b(c.getInnerBBox()), _b(c.getOuterBBox()),
                        tuple(p.getCellIndexPair(c.getSequentialIndex()))))
        out.append(_try(lambda: tuple(p[nx, 0].getIndex())))
        out.append([tuple(c.getIndex()) for _, c in zip(range(30), p)])
        out.append(twice(p, 9))
    return dg(out)


NEAR = {}


def near_points(d):
    """Positions on both sides of, and on, edges between tracts, as a fresh map has them (and whether clearly on a side)."""
    m = confs.build(d)
    r = rng_for("near", confs.key(d))
    n = len(m)
    out = []
    for k in range(6):
        a = m[r.randrange(n)].getCtrCoord()
        if k % 2 or n == 1:
            b = a.offset(r.uniform(0, 2*math.pi)*geom.radians, r.uniform(0.05, 1.5)*geom.radians)
        else:
            b = m[r.randrange(n)].getCtrCoord()
        a, b = (tuple(x.asRadians() for x in (c.getLongitude(), c.getLatitude())) for c in (a, b))
        at = lambda f: (a[0] + f*(b[0] - a[0]), a[1] + f*(b[1] - a[1]))  # noqa: E731
        who = lambda p: m.findTract(geom.SpherePoint(p[0], p[1], geom.radians)).getId()  # noqa: E731
        out.append(at(0.5) + (False,))
        lo, hi = 0.0, 1.0
        first = who(at(lo))
        if who(at(hi)) == first:
            continue
        for _ in range(60):
            f = (lo + hi)/2
            if who(at(f)) == first:
                lo = f
            else:
                hi = f
        size = math.hypot(b[0] - a[0], b[1] - a[1])
        out += [at(lo) + (False,), at(hi) + (False,)]
        for asec in (0.0004, 0.2):
            e = math.radians(asec/3600)/size
            out += [at(max(lo - e, 0.0)) + (asec > 0.1,), at(min(hi + e, 1.0)) + (asec > 0.1,)]
    return out


def near(d):
    """Those, asked of another process."""
    k = confs.key(d)
    if k not in NEAR:
        err, v = ZYG.ask("near", d, 0)
        NEAR[k] = [] if err else v
    return NEAR[k]


def find_coord(d, j):
    if isinstance(j, tuple):
        return geom.SpherePoint(j[0], j[1], geom.radians)
    r = rng_for("coord", confs.key(d), j)
    top = confs.full(d)[0]
    if d["cls"] == "discrete":
        i = r.randrange(len(top["raList"]))
        return sp(top["raList"][i] + r.uniform(-.1, .1), max(-90, min(90, top["decList"][i] + r.uniform(-.1, .1))))
    return sp(r.uniform(0, 360), math.degrees(math.asin(r.uniform(-1, 1))))


def region(d, j):
    c = find_coord(d, j + 100)
    top = confs.full(d)[0]
    g = confs.inner_dims(d)
    return [c] + [c.offset(a*geom.degrees, top["pixelScale"]*g[0]*0.4*geom.arcseconds) for a in (10, 130, 250)]


def find_answer(m, d, j):
    c = find_coord(d, j)
    t = m.findTract(c)
    a = m.findTractIdArray(np.array([c.getLongitude().asRadians()]), np.array([c.getLatitude().asRadians()]))
    return t, dg((t.getId(), [int(v) for v in a]))


def search_answer(m, d, j, spoil=False):
    cs = region(d, j)
    given = list(cs)
    if j % 2:
        r = m.findClosestTractPatchList(cs)
    else:
        r = m.findTractPatchList(cs)
    if len(cs) != len(given) or any(a is not b for a, b in zip(cs, given)):
        raise RuntimeError("the search changed the list it was given")
    out = dg([(t.getId(), [tuple(p.getIndex()) for p in ps]) for t, ps in r])
    if spoil:
        for t, ps in r:
            if isinstance(ps, list):
                ps.clear()
        if isinstance(r, list):
            r.clear()
        cs.clear()
    return out


def cfg_digest(m):
    return dg(sorted(m.config.toDict().items(), key=str) and json.dumps(m.config.toDict(), sort_keys=True, default=str))


def cls_name(m):
    return type(m).__module__ + "." + type(m).__name__


def version(m):
    v = getattr(m, "_version", None)
    return str(v)


def facts(m):
    return dict(sha=m.getSha1().hex(), hash=str(hash(m)), cfg=cfg_digest(m), ver=version(m), cls=cls_name(m), len=I(len(m)))


# ---------------------------------------------- a process that builds no map itself
class Zygote:
    """Answers questions about maps, each in a fresh process."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = os.fdopen(r2, "rb"), os.fdopen(w1, "wb")
        atexit.register(self.close)

    def close(self):
        try:
            self.w.close()
            os.waitpid(self.pid, 0)
        except Exception:
            pass

    @staticmethod
    def _read(f):
        h = f.read(4)
        if len(h) < 4:
            return None
        return pickle.loads(f.read(struct.unpack("<I", h)[0]))

    @staticmethod
    def _write(f, o):
        b = pickle.dumps(o)
        f.write(struct.pack("<I", len(b)) + b)
        f.flush()

    def serve(self, r, w):
        fr = os.fdopen(r, "rb")
        fw = os.fdopen(w, "wb")
        while True:
            q = self._read(fr)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    a = call(lambda: answer(q), limit=100)
                    self._write(fw, a)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self._write(fw, (["Died"], None))

    def ask(self, *q):
        self._write(self.w, q)
        a = self._read(self.r)
        return a if a is not None else (["Died"], None)


def answer(q):
    what = q[0]
    if what == "unpickle":
        _, b, d, i = q
        m = pickle.loads(b)
        f = facts(m)
        f["dig"] = tract_answers(m[i])
        f["find"] = find_answer(m, d, i)[1]
        return f
    if what == "op":
        import scen_thr
        return scen_thr.alone(*q[1:])
    _, d, i = q
    if what == "lazy":
        import scen_lazy
        return scen_lazy.centres(d)
    if what == "near":
        return near_points(d)
    m = confs.build(d)
    if what == "t":
        return tract_answers(m[i])
    if what == "p":
        return patch_answers(patch_of(m[i]))
    if what == "f":
        return find_answer(m, d, i)[1]
    if what == "s":
        return search_answer(m, d, i)


ZYG = None
REFS = {}


def ref(what, d, i):
    global ZYG
    k = (what, confs.key(d), i)
    if k not in REFS:
        REFS[k] = ZYG.ask(what, d, i)
    return REFS[k]


# ------------------------------------------------------------ attempts to modify
def attempts(d, full=False):
    """(label, function of a config) that try to change an option."""
    def setter(k, v):
        return lambda c: setattr(c, k, v)

    def sub(tb, k, v):
        return lambda c: setattr(c.tractBuilder[tb], k, v)
    top, tb, _ = confs.full(d)
    out = []
    for k, v in top.items():
        if isinstance(v, list):
            out.append((k, setter(k, [1.5]*len(v))))
            if v:
                out.append((k + "[0]", lambda c, k=k: getattr(c, k).__setitem__(0, 3.25)))
                out.append((k + "[-1]", lambda c, k=k: getattr(c, k).__setitem__(len(v) - 1, 3.25)))
            out.append((k + ".append", lambda c, k=k: getattr(c, k).append(1.25)))
        elif isinstance(v, bool):
            out.append((k, setter(k, not v)))
        elif isinstance(v, str):
            out.append((k, setter(k, "MOL")))
        else:
            out.append((k, setter(k, type(v)(v + 1))))
    for b in ("legacy", "cells"):
        for k, v in confs.DEFAULTS[b].items():
            if isinstance(v, list):
                out.append(("%s.%s" % (b, k), sub(b, k, [7, 7])))
                for j in range(2):
                    out.append(("%s.%s[%d]" % (b, k, j), lambda c, b=b, k=k, j=j: getattr(c.tractBuilder[b], k).__setitem__(j, 7)))
            else:
                out.append(("%s.%s" % (b, k), sub(b, k, v + 1)))
    out.append(("tractBuilder.name", lambda c: setattr(c.tractBuilder, "name", "cells" if tb == "legacy" else "legacy")))
    out.append(("tractBuilder.active", lambda c: setattr(c.tractBuilder.active, "patchBorder" if tb == "legacy" else "cellBorder", 3)))
    out.append(("patchBorder", setter("patchBorder", 17)))
    out.append(("patchInnerDimensions", setter("patchInnerDimensions", [17, 18])))
    out.append(("update", lambda c: c.update(pixelScale=9.5)))
    out.append(("loadFromString", lambda c: c.loadFromString("config.tractOverlap = 7.25")))
    return out


class World:
    """Real maps behind the handles of a schedule."""

    def __init__(self, R, rng, descs):
        self.R, self.rng, self.descs = R, rng, descs
        self.maps, self.given, self.conf, self.its, self.keep, self.tok = {}, {}, {}, {}, {}, 0
        self.held = []
        self.edges = False
        self.slow = 1.0
        self.nh = 0
        self.sent = set()
        R("begin")

    def token(self, o, h=None):
        k = id(o)
        if k not in self.keep:
            self.tok += 1
            self.keep[k] = (o, self.tok, h)
        return self.keep[k][1]

    def drop(self, h):
        """Lets go of a map and of all that came from it (unless it is iterated)."""
        for f in (self.maps, self.given, self.conf):
            f.pop(h, None)
        self.held = [x for x in self.held if x[0] != h]
        if not any(g == h for g, _ in self.its.values()):
            self.keep = {k: v for k, v in self.keep.items() if v[2] != h}
        gc.collect()
        self.R("drop", h=h)

    def group(self, c):
        """Descriptions of the same options (rings: of any version) are one group."""
        same = [{k: v for k, v in self.descs[x].items() if k != "version"} for x in sorted(self.descs)]
        return I(same.index(same[sorted(self.descs).index(c)]))

    def need(self, what, c, i, arg=None):
        """The undisturbed answer, announced once."""
        err, a = ref(what, self.descs[c], i if arg is None else arg)
        if (what, c, i) not in self.sent:
            self.sent.add((what, c, i))
            self.R("ref", c=c, what=what, i=i, dig=a if not err else "!" + err[0])

    def n(self, h):
        d = self.descs[self.conf[h]]
        # (the ring numbers of C10 have two values where a ring edge divides evenly)
        return confs.ntracts(d) if d["cls"] != "rings" else len(self.maps[h])

    def index(self, h, i, N):
        n = self.n(h)
        r = self.rng
        d = self.descs[self.conf[h]]
        if self.edges and d["cls"] == "rings" and 0 <= i < N and r.random() < .7:
            # the first and the last tract of a ring, where versions differ
            k = 1 + sum(confs.ringnums(d["top"]["numRings"])[:1])
            return [k, k - 1][i % 2]
        if i < 0:
            return r.choice([-1, -1, -2, -n, -n - 1, 1 - n, -10**9])
        if i >= N:
            return r.choice([n, n, n + 1, 2*n, n + 5, 10**9]) if i == N else r.choice([n + 5, 12*n, 4294967 + n])
        if i == 0:
            return 0
        if i == N - 1:
            return n - 1
        # two tracts in between, the same ones for all maps of this many tracts
        return rng_for("between", n).sample(range(n), min(2, n))[r.random() < 0.5 and n > 1]

    def new(self, c, how=None):
        """A map from a configuration of its own, of a subclass, or that of another map."""
        d = self.descs[c]
        how = how or self.rng.choice(["own", "own", "sub", "shared"])
        same = [h for h in self.maps if self.conf[h] == c]
        if how == "shared" and same:
            cfg = self.maps[self.rng.choice(same)].config
        else:
            cfg = confs.config(d, sub=how == "sub")
        from lsst.skymap import skyMapRegistry
        cls = skyMapRegistry[d["cls"]]
        if how == "none":
            m = cls() if self.rng.random() < 0.5 else cls(None)
            cfg = m.config
        else:
            m = cls(cfg, version=d["version"]) if "version" in d else cls(cfg)
        self.nh += 1
        h = self.nh
        self.maps[h], self.given[h], self.conf[h] = m, cfg, c
        self.R("new", h=h, c=c, g=self.group(c), n=self.n(h), lazy=d["cls"] in ("discrete", "rings", "healpix"), **facts(m))

    def get(self, h, i):
        m = self.maps[h]
        j = self.rng.choice([int, int, np.int64, np.int32])(i)
        err, t = call(lambda: m[j])
        self.R("get", h=h, i=i, err=err, id=BAD if err else obs.tid(t), tok=0 if err else self.token(t, h), len=I(len(m)))
        return t

    def query(self, h, i):
        self.need("t", self.conf[h], i)
        err, a = call(lambda: tract_answers(self.maps[h][i]), limit=60*self.slow)
        self.R("query", h=h, i=i, err=err, dig=a or "")
        if len(self.held) < 12:
            err, p = call(lambda: patch_of(self.maps[h][i]))
            if not err:
                self.held.append((h, i, self.maps[h][i], p))

    def helds(self):
        """Tracts and patches obtained earlier still say the same."""
        for h, i, t, p in self.held:
            self.need("t", self.conf[h], i)
            self.need("p", self.conf[h], i)
            err, a = call(lambda: (tract_answers(t), patch_answers(p)), limit=60*self.slow)
            self.R("held", h=h, i=i, err=err, dig=a[0] if a else "", pdig=a[1] if a else "")

    def find(self, h, j):
        d = self.descs[self.conf[h]]
        p = near(d)[j - 1000] if j >= 1000 else j
        self.need("f", self.conf[h], j, p)
        err, v = call(lambda: find_answer(self.maps[h], d, p))
        self.R("find", h=h, i=j, err=err, dig="" if err else v[1], id=BAD if err else obs.tid(v[0]),
               tok=0 if err else self.token(v[0], h))

    def exact(self, h):
        """Does the map decide like the undisturbed one to the last bit?"""
        return True

    def nearby(self, h, most=8):
        """Positions next to each other, in any order."""
        ps = near(self.descs[self.conf[h]])
        all_ = [1000 + i for i in range(len(ps)) if ps[i][2] or self.exact(h)]
        first = self.rng.randrange(max(len(all_) - most, 0) + 1)
        js = all_[first:first + most]
        self.rng.shuffle(js)
        for j in js + js[:2]:
            self.find(h, j)

    def search(self, h, j):
        d = self.descs[self.conf[h]]
        self.need("s", self.conf[h], j)
        spoil = self.rng.random() < 0.5
        err, v = call(lambda: search_answer(self.maps[h], d, j, spoil), limit=100*self.slow)
        self.R("search", h=h, i=j, err=err, dig=v or "")
        if spoil:
            self.R("mutate", h=h)

    def iter(self, h):
        t = len(self.its) + 1
        self.its[t] = (h, iter(self.maps[h]))
        self.R("iter", t=t, h=h)

    def step(self, t, k):
        h, it = self.its[t]
        for _ in range(k):
            stop, o = False, None
            err, o = call(lambda: next(it))
            if "StopIteration" in err:
                stop, err = True, []
            self.R("step", t=t, err=err, stop=stop, id=BAD if o is None else obs.tid(o), tok=0 if o is None else self.token(o, h))
            if stop or err:
                break

    def clone(self, h, how):
        m = self.maps[h]
        if how == 0:
            p = self.rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
            f = lambda: pickle.loads(pickle.dumps(m, p))  # noqa: E731
        else:
            f = (lambda: copy.copy(m)) if how == 1 else (lambda: copy.deepcopy(m))
        err, c = call(f)
        d = dict(sha="", hash="", cfg="", ver="", cls="", len=BAD)
        eq = False
        if not err:
            err, d2 = call(lambda: facts(c))
            d = d2 or d
            eq = obs.eq(c, m) and obs.eq(m, c)
        self.nh += 1
        self.R("clone", h=h, h2=self.nh, how=how, err=err, eq=eq, **d)
        if not err:
            self.maps[self.nh], self.given[self.nh], self.conf[self.nh] = c, c.config, self.conf[h]
        return not err

    def foreign(self, h, i):
        c = self.conf[h]
        self.need("t", c, i)
        self.need("f", c, i)
        p = self.rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
        err, b = call(lambda: pickle.dumps(self.maps[h], p))
        d = dict(sha="", hash="", cfg="", ver="", cls="", len=BAD, dig="", find="")
        if not err:
            err, a = ZYG.ask("unpickle", b, self.descs[c], i)
            if not err:
                d = a
        self.R("foreign", h=h, i=i, err=err, **d)

    def future(self, h, ver):
        m = self.maps[h]

        def go():
            st = dict(m.__getstate__())
            st["version"] = ver
            n = type(m).__new__(type(m))
            n.__setstate__(st)
            return n
        err, n = call(go)
        sha = ""
        if not err:
            err, sha = call(lambda: n.getSha1().hex())
        self.R("future", h=h, ver=list(ver), err=err, sha=sha or "")

    def setcfg(self, h, what, f, given):
        c = self.given[h] if given else self.maps[h].config
        err, _ = call(lambda: f(c))
        if not err:
            self.slow = 0.05         # a spoilt map: no use in waiting for its answers
        self.R("set", h=h, what=what, err=err)

    def state(self, h):
        f = facts(self.maps[h])
        self.R("state", h=h, sha=f["sha"], hash=f["hash"], cfg=f["cfg"], len=f["len"])

    def mutate(self, h, i):
        """Spoils what a tract and lookups handed out."""
        m = self.maps[h]
        d = self.descs[self.conf[h]]

        def go():
            t = m[i]
            for b in (t.getBBox(), t.bbox):
                b.grow(7)
                b.shift(geom.Extent2I(3, 5))
                cs = region(d, i)
            for ps in (t.findPatchList(cs), ):
                if isinstance(ps, list):
                    ps.clear()
            r = m.findTractPatchList(cs)
            for _, ps in r:
                if isinstance(ps, list):
                    ps.clear()
            cs.clear()
            ra = np.array([0.1, 2.0, 3.0])
            dec = np.array([0.1, 0.2, -0.3])
            ids = m.findTractIdArray(ra, dec)
            ids[...] = -7
            ra[:] = 99
        err, _ = call(go, limit=100*self.slow)
        self.R("mutate", h=h)


# ------------------------------------------------------------------- schedules
def pick_descs(rng):
    def ok(d):
        return confs.ntracts(d) <= 60

    def draw(cls):
        for _ in range(50):
            d = confs.rand_desc(rng, cls=cls, maxpatch=5)
            if cls == "discrete" and len(d["top"]["raList"]) < 3:
                continue
            if cls == "rings" and d["top"]["numRings"] > 5:
                continue
            if cls == "healpix" and d["top"]["log2NSide"] > 1:
                continue
            if ok(d):
                return d
        raise RuntimeError("no description")
    a = draw("discrete")
    r = a["top"]["radiusList"]
    for j in range(len(r)):       # clearly different sizes
        r[j] = round(r[j]*(0.4 + 0.9*j), 5)
    b = draw(rng.choice(["rings", "rings", "healpix"]))
    c = draw(rng.choice(["dodeca", "dodeca", "equat", "rings", "discrete"]))
    if rng.random() < 0.6:
        # the same kind of map with one option changed
        base = rng.choice([b, b, a, draw(rng.choice(["dodeca", "equat", "healpix"]))])
        c = variant(rng, base)
        if base is not a and base is not b:
            b = base
    ds = [a, b, c]
    rng.shuffle(ds)
    return {i + 1: d for i, d in enumerate(ds)}


def variant(rng, d):
    """A description with one option changed, of any kind."""
    n = json.loads(json.dumps(d))
    top, tb, sub = confs.full(d)
    cls = d["cls"]
    opts = ["pixelScale", "pixelScale", "rotation", "rotation", "projection", "tractOverlap", "sub", "sub", "own", "own", "own"]
    o = rng.choice(opts)
    t = n["top"]
    if o == "pixelScale":
        t[o] = round(top[o]*rng.choice([1.25, 0.8, 1.002]), 5)
    elif o == "rotation":
        t[o] = top[o] + rng.choice([90.0, 30.0, 0.5])
    elif o == "projection":
        alts = {"equat": ["CEA", "CAR"]}.get(cls, ["STG", "ZEA", "ARC"])
        t[o] = rng.choice([p for p in alts if p != top[o]])
    elif o == "tractOverlap":
        t[o] = round(top[o]*1.1 + 0.05, 5)
    elif o == "sub":
        k = rng.choice(sorted(sub))
        n.setdefault("sub", {})
        n["tb"] = tb
        v = sub[k]
        n["sub"][k] = [x + 1 for x in v] if isinstance(v, list) else v + 1
    elif cls == "dodeca":
        t["withTractsOnPoles"] = not top["withTractsOnPoles"]
    elif cls == "equat":
        if rng.random() < 0.5:
            t["numTracts"] = top["numTracts"] + 1
        else:
            t["decRange"] = [top["decRange"][0] - 0.5, top["decRange"][1]]
    elif cls == "rings":
        r = rng.random()
        if r < 0.34:
            n["version"] = 1 - d.get("version", 1)
        elif r < 0.67:
            t["raStart"] = round((top["raStart"] + 17.0) % 360, 3)
        else:
            t["numRings"] = top["numRings"] + 1 if top["numRings"] < 5 else 4
    elif cls == "healpix":
        if rng.random() < 0.6:
            t["nest"] = not top["nest"]
        else:
            t["log2NSide"] = 1 - top["log2NSide"] if top["log2NSide"] < 2 else 1
    else:
        k = rng.choice(["raList", "decList", "radiusList", "extra"])
        j = rng.randrange(len(top["raList"]))
        if k == "raList":
            t[k][j] = round((t[k][j] + 3.5) % 360, 4)
        elif k == "decList":
            t[k][j] = round(t[k][j] - 2.25 if t[k][j] > -80 else t[k][j] + 2.25, 4)
        elif k == "radiusList":
            t[k][j] = round(t[k][j]*1.4, 5)
        else:
            # the same tracts, and one more
            t["raList"].append(12.5)
            t["decList"].append(-3.5)
            t["radiusList"].append(t["radiusList"][0])
    return n


def run_schedule(R, rng, ops, N, descs=None, exact=False, world=None):
    W = (world or World)(R, rng, descs or pick_descs(rng))
    W.edges = bool(descs) and not exact
    its = []
    hmap = []       # handles of the schedule -> handles here (None: clone failed, or let go)
    for o in ops:
        op = o[0]
        with guard(R, "schedule " + op):
            if op == "new":
                W.new(o[1])
                hmap.append(W.nh)
                continue
            if op == "step":
                if o[1] <= len(its) and its[o[1] - 1] is not None:
                    t, n = its[o[1] - 1]
                    W.step(t, 1 if exact else max(1, -(-n//N) + (1 if rng.random() < .3 else 0)))
                continue
            if o[1] > len(hmap) or hmap[o[1] - 1] is None:
                if op == "clone":
                    hmap.append(None)
                if op == "iter":
                    its.append(None)
                continue
            h = hmap[o[1] - 1]
            if op == "get":
                W.get(h, W.index(h, o[2], N))
            elif op == "query":
                W.query(h, W.index(h, o[2], N))
            elif op == "find":
                W.find(h, o[2])
                if rng.random() < 0.3:
                    W.nearby(h)
            elif op == "search":
                if W.n(h) <= 60:
                    W.search(h, o[2])
            elif op == "iter":
                W.iter(h)
                its.append((len(W.its), W.n(h)))
            elif op == "clone":
                r = W.clone(h, o[2])
                hmap.append(W.nh if r else None)
            elif op == "setcfg":
                ats = attempts(W.descs[W.conf[h]])
                for label, f in rng.sample(ats, 3):
                    W.setcfg(h, label, f, o[2] == 2)
                W.state(h)
            elif op == "mutate":
                W.mutate(h, W.index(h, o[2], N))
            elif op == "drop":
                hmap[o[1] - 1] = None
                W.drop(h)
    if W.edges:
        # one map after the other, in the memory of the one before
        for k in range(16):
            with guard(R, "schedule churn"):
                W.new(1 + k % len(W.descs))
                h = W.nh
                for i in (0, W.n(h) - 1):
                    W.query(h, i)
                W.drop(h)
    # afterwards: everything still says the same
    for h in list(W.maps):
        with guard(R, "schedule end"):
            W.state(h)
            n = W.n(h)
            for i in sorted({0, n//2, n - 1}):
                W.get(h, i)
                W.query(h, i)
            W.find(h, 1)
    with guard(R, "schedule held"):
        W.helds()
    if W.maps:
        h = rng.choice(list(W.maps))
        with guard(R, "foreign"):
            W.foreign(h, rng.choice([0, W.n(h)//2]))
        for h in W.maps:
            if W.descs[W.conf[h]]["cls"] in ("dodeca", "equat"):
                with guard(R, "future"):
                    for v in rng.sample([(2, 0), (2, 1), (3, 0), (10, 0), (1, 0), (1, 5), (0, 9), (1, 99)], 4):
                        W.future(h, v)
                break


def read_cases(cases, want, seed):
    """Distinct schedules (TLC prints every last step)."""
    seen, out = set(), []
    with open(cases) as f:
        for line in f:
            s = json.loads(line)
            k = json.dumps(s[:-1])
            if k not in seen:
                seen.add(k)
                out.append(s)
    rng_for(seed, "schedules").shuffle(out)
    return out[:want]


def suite_sched(seed, tier, cases):
    global ZYG
    ZYG = Zygote()
    N = 3
    ss = read_cases(cases, 48 if tier == "quick" else 1000, seed)
    return [("schedule %d" % i, run_schedule, (s, N)) for i, s in enumerate(ss)]


# ------------------------------------------------- iterations in between each other
def small_desc(rng, cls, n):
    """A description of a map of n tracts (rings: at least n)."""
    for _ in range(200):
        d = confs.rand_desc(rng, cls=cls, maxpatch=3)
        if cls == "discrete":
            k = len(d["top"]["raList"])
            if k < n:
                continue
            for o in ("raList", "decList", "radiusList"):
                d["top"][o] = d["top"][o][:n]
        elif cls == "equat":
            d["top"]["numTracts"] = max(n, 3)
        elif cls == "rings":
            d["top"]["numRings"] = 1
        elif cls == "healpix":
            d["top"]["log2NSide"] = 0
        return d
    raise RuntimeError("no description")


def suite_weave(seed, tier, cases):
    """Every interleaving of two iterations over one map (MCSkySystem_weave)."""
    global ZYG
    ZYG = Zygote()
    N = 3
    rng = rng_for(seed, "weave")
    ss = read_cases(cases, 128 if tier == "quick" else 1000, seed)
    out = []
    for i, s in enumerate(ss):
        # three tracts exactly: step for step; otherwise a third of the map at a time
        cls = ["discrete", "discrete", "equat", "rings", "healpix", "dodeca"][i % 6]
        d = small_desc(rng, cls, N)
        out.append(("weave %d %s" % (i, cls), run_schedule, (s, N, {1: d}, confs.ntracts(d) == N)))
    return out


# ------------------------------------------------------- maps that come and go
def sibling(rng, d):
    """A description of a map of the same pixel boxes elsewhere on the sky."""
    n = json.loads(json.dumps(d))
    t = n["top"]
    top = confs.full(d)[0]
    cls = d["cls"]
    o = rng.choice(["own", "own", "rotation"])
    if cls in ("dodeca", "equat", "healpix") or o == "rotation":
        t["rotation"] = top["rotation"] + rng.choice([30.0, 90.0, -12.5])
    elif cls == "rings":
        if rng.random() < 0.5:
            n["version"] = 1 - d.get("version", 1)
        else:
            t["raStart"] = round((top["raStart"] + rng.choice([17.0, 90.0])) % 360, 4)
    else:
        t["raList"] = [round((a + 40) % 360, 4) for a in t["raList"]]
        if rng.random() < 0.5:
            t["decList"] = [-a for a in t["decList"]]
    return n


def suite_lives(seed, tier, cases):
    """Maps let go while others like them are made (MCSkySystem_lives)."""
    global ZYG
    ZYG = Zygote()
    N = 2
    rng = rng_for(seed, "lives")
    ss = read_cases(cases, 32 if tier == "quick" else 400, seed)
    out = []
    for i, s in enumerate(ss):
        cls = ["discrete", "rings", "equat", "rings", "healpix", "dodeca"][i % 6]
        a = small_desc(rng, cls, N)
        if cls == "rings":
            a["top"]["numRings"] = rng.choice([2, 2, 3])
        b = sibling(rng, a)
        c = sibling(rng, a)
        for _ in range(20):
            if confs.key(c) not in (confs.key(a), confs.key(b)):
                break
            c = sibling(rng, b)
        out.append(("lives %d %s" % (i, cls), run_schedule, (s, N, {1: a, 2: b, 3: c})))
    return out


# ------------------------------------------------ every option of every class (C09)
def frozen_unit(R, rng, d, how):
    W = World(R, rng, {1: d})
    W.new(1, how)
    n = W.n(1)
    i = n//2
    W.get(1, i)
    W.query(1, i)
    for label, f in attempts(d):
        for given in (False, True):
            W.setcfg(1, label, f, given)
        W.state(1)
    W.query(1, i)
    W.query(1, 0)
    W.find(1, 0)
    W.clone(1, 0)
    W.query(2, i)
    for label, f in attempts(d):
        W.setcfg(2, label, f, False)
    W.state(2)
    W.state(1)
    W.helds()


def suite_frozen(seed, tier, cases):
    global ZYG
    ZYG = Zygote()
    rng = rng_for(seed, "frozen")
    ds = []
    for cls in ("dodeca", "equat", "discrete", "rings", "healpix"):
        for r in range(2 if tier == "quick" else 12):
            ds.append(confs.rand_desc(rng, cls=cls, maxpatch=4))
    ds = [d for d in ds if confs.ntracts(d) < 400]
    # all by default, from no configuration at all
    return ([("frozen %d %s" % (i, d["cls"]), frozen_unit, (d, ["own", "sub"][i % 2])) for i, d in enumerate(ds)]
            + [("frozen default %s" % cls, frozen_unit, (dict(cls=cls, tb="legacy", top={}, sub={}), "none")) for cls in ("dodeca", "equat")])


# ------------------------------------ pickling of every kind in every way (C07)
def pickle_unit(R, rng, d, likes=()):
    W = World(R, rng, {1: d})
    W.new(1)
    n = W.n(1)
    i = rng.choice([0, n//2, n - 1])
    h = 1
    for step in range(7):
        if W.clone(h, [0, 0, 0, 1, 2, 0, 2][step]):
            g = W.nh
            W.query(g, i)
            W.find(g, step % 3)
            if rng.random() < 0.4:
                h = g                 # a copy of a copy
        if step == 3:
            W.query(1, n - 1)
    for p in range(2):
        W.foreign(h, i)
    # copies of like maps, all of them kept
    for c, like in enumerate(likes, 2):
        W.descs[c] = like
        W.new(c, rng.choice(["own", "sub"]))
        a = W.nh
        js = [rng.randrange(min(n, W.n(a)))]
        if d["cls"] == "rings":        # where the versions differ
            k = 1 + sum(confs.ringnums(like["top"]["numRings"])[:1])
            js = [k, k - 1] + js
        for _ in range(2):
            for g in rng.sample([1, h, a], 3):
                if W.clone(g, 0):
                    for j in js[:2]:
                        W.query(W.nh, j)
        W.query(h, js[0])
        W.query(a, js[0])
    if d["cls"] in ("dodeca", "equat"):
        for v in [(2, 0), (2, 1), (3, 0), (11, 0), (1, 0), (1, 7), (0, 9)]:
            W.future(1, v)


def suite_pickles(seed, tier, cases):
    global ZYG
    ZYG = Zygote()
    rng = rng_for(seed, "pickles")
    ds = []
    for cls in ("dodeca", "equat", "discrete", "rings", "rings", "healpix"):
        for r in range(4 if tier == "quick" else 20):
            d = confs.rand_desc(rng, cls=cls, maxpatch=4)
            if confs.ntracts(d) < 500:
                ds.append(d)
    ds += [d for d in confs.FIXED if d["cls"] != "rings"][:4] if tier != "quick" else []
    out = []
    for i, d in enumerate(ds):
        likes = []
        if d["cls"] == "rings":
            likes.append(dict(json.loads(json.dumps(d)), version=1 - d.get("version", 1)))
        if confs.ntracts(d) < 60 or tier != "quick":
            likes.append(sibling(rng, d))
        likes = [x for x in likes if confs.key(x) != confs.key(d)]
        out.append(("pickle %d %s" % (i, d["cls"]), pickle_unit, (d, likes)))
    return out


# ---------------------------------------------------- maps of many tracts (C06)
def large_unit(R, rng, d):
    """All tracts of a large map twice, and in an iteration, are one object each."""
    W = World(R, rng, {1: d})
    W.new(1)
    m = W.maps[1]
    n = W.n(1)
    lazy = d["cls"] in ("discrete", "rings", "healpix")
    order = list(range(n))
    how = rng.randrange(3)
    if how == 1:
        order.reverse()
    elif how == 2:
        rng.shuffle(order)
    if n > 800:
        order = order[:800]
    W.iter(1)
    W.step(1, n//3)
    for i in order:
        W.get(1, i)
    W.iter(1)
    if n <= 800:
        W.step(2, n + 1)
    else:
        W.step(2, 40)
    W.clone(1, rng.randrange(3))
    for i in rng.sample(order, min(n, 60)):
        W.get(1, i)
        W.get(2, i)
        if lazy:
            W.get(1, -1 - i)
    for i in order[:20] + order[-20:]:
        W.get(1, i)
    for i in (n - 1, n, n + 1, 2*n):
        W.get(1, i)
    W.step(1, n + 1 if n <= 800 else 40)
    for j in range(3):
        if n <= 400 or d["cls"] == "rings":
            W.find(1, j)


def suite_large(seed, tier, cases):
    global ZYG
    ZYG = Zygote()
    rng = rng_for(seed, "large")
    out = []
    for r in range(1 if tier == "quick" else 8):
        for cls in ("rings", "rings", "healpix", "healpix", "equat", "discrete", "discrete"):
            d = confs.rand_desc(rng, cls=cls, maxpatch=2)
            t = d["top"]
            if cls == "rings":
                t["numRings"] = rng.choice([10, 13, 17, 24, 30]) if len(out) % 2 else rng.choice([14, 16, 40, 70, 110])
            elif cls == "healpix":
                t["log2NSide"] = rng.choice([2, 3, 3, 4]) if len(out) % 2 else rng.choice([5, 5, 6])
            elif cls == "equat":
                t["numTracts"] = rng.choice([101, 129, 257, 600])
                t["projection"] = "CEA"
            else:
                n = rng.choice([65, 129, 257, 300, 513]) if len(out) % 2 else rng.choice([1030, 2050, 4100])
                for k in ("raList", "decList"):
                    t[k] = [round(rng.uniform(0, 80), 3) for _ in range(n)]
                t["radiusList"] = [t["radiusList"][0]]*n
            t["tractOverlap"] = 0.01
            d["tb"], d["sub"] = "legacy", dict(patchInnerDimensions=[100, 90], patchBorder=10)
            w = dict(rings=lambda: 180/(t["numRings"] + 1), healpix=lambda: 70/2**t["log2NSide"], equat=lambda: 360/t["numTracts"],
                     discrete=lambda: 2*t["radiusList"][0])[cls]()
            t["pixelScale"] = round(w*3600/150, 4)
            out.append(("large %d %s" % (len(out), cls), large_unit, (d,)))
    return out
