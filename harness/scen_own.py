"""Maps and tract builders of a user's own (C36): schedules of MCSkySystem, registrations, and what differs by right."""
import copy
import json
import pickle
import shutil

from common import *  # noqa: F401,F403
from common import geom, np
import confs
import obs
import scen_sys
from scen_sys import dg, _b, _s, tract_answers, find_answer, search_answer, read_cases

KINDS = ["list", "lazy", "fast", "args"]


def build(d, kind, tb, remark=None):
    import ownmaps
    cls = ownmaps.OF[kind]
    c = ownmaps.config(cls, d, confs.full(d), tb)
    return cls(c, remark=remark or "none") if kind == "args" else cls(c)


class World(scen_sys.World):
    """Own maps; the undisturbed answers are those of discrete maps."""

    def __init__(self, R, rng, descs):
        super().__init__(R, rng, descs)
        self.own = {}
        for c, d in descs.items():
            legacy = d.get("tb", "legacy") == "legacy"
            self.own[c] = (rng.choice(KINDS), "ownrows" if legacy and rng.random() < .5 else None)

    def group(self, c):
        same = [confs.key(self.descs[x]) + str(self.own[x]) for x in sorted(self.descs)]
        return I(same.index(same[sorted(self.descs).index(c)]))

    def exact(self, h):
        # the lookup of "fast" compares other distances: rounding decides in the middle between tracts
        return self.own[self.conf[h]][0] != "fast"

    def new(self, c, how=None):
        kind, tb = self.own[c]
        m = build(self.descs[c], kind, tb)
        self.nh += 1
        h = self.nh
        self.maps[h], self.given[h], self.conf[h] = m, m.config, c
        self.R("new", h=h, c=c, g=self.group(c), n=self.n(h), lazy=kind != "list", **scen_sys.facts(m))


def descs3(rng, n=0):
    a = scen_sys.small_desc(rng, "discrete", n) if n else confs.rand_desc(rng, cls="discrete", maxpatch=5)
    b = scen_sys.variant(rng, a)
    for _ in range(20):
        c = scen_sys.variant(rng, b) if rng.random() < .5 else confs.rand_desc(rng, cls="discrete", maxpatch=5)
        if len({confs.key(x) for x in (a, b, c)}) == 3:
            break
    return {1: a, 2: b, 3: c}


def run(R, rng, ops, N, descs):
    scen_sys.run_schedule(R, rng, ops, N, descs, exact=True, world=World)


def suite_sched(seed, tier, cases):
    scen_sys.ZYG = scen_sys.Zygote()
    rng = rng_for(seed, "own")
    N = 3
    ss = read_cases(cases, 40 if tier == "quick" else 400, seed)
    out = []
    for i, s in enumerate(ss):
        for _ in range(200):
            d = descs3(rng, N)
            if all(N <= confs.ntracts(x) <= 7 for x in d.values()):
                break
        out.append(("own %d" % i, run, (s, N, d)))
    return out


# ------------------------------------------------------------- repositories
def reg_unit(R, rng, d, kind, tb):
    import scen_reg

    class W(scen_reg.World):
        def build(self, k):
            return build(self.descs[k], kind, tb)
    w = W(R, rng, {1: d, 2: scen_sys.variant(rng, d)})
    try:
        with guard(R, "register"):
            w.reg(1, "sky")
            if w.style("sky") in w.dump():
                w.packs(w.style("sky"), 1)
            w.reg(1, "sky", newbutler=True)
            w.reg(2, "sky")
            w.reg(1, "other")
            w.dump()
            inj = scen_reg.Injector(rng.randrange(12), rng.choice(["before", "after"]), "raise", rng.choice(scen_reg.EXCS))
            w.reg(2, "other", inj)
            w.dump()
            w.reg(2, "other", newbutler=True)
            w.dump()
    finally:
        w.close()


def suite_reg(seed, tier, cases):
    import scen_reg
    rng = rng_for(seed, "ownreg")
    out = []
    for i in range(12 if tier == "quick" else 80):
        d = scen_reg.small(rng, "discrete")
        tb = "ownrows" if d.get("tb", "legacy") == "legacy" and i % 3 != 2 else None
        out.append(("ownreg %d" % i, reg_unit, (d, KINDS[i % 4], tb)))
    return out


# ------------------------------------------------------ what differs by right
def boxes(t, rows=True):
    """What a tract says but for the numbers of its patches."""
    nx, ny = t.getNumPatches()
    w = t.getWcs()
    out = [t.getId(), _b(t.getBBox()), (nx, ny), tuple(t.getPatchInnerDimensions()), t.getPatchBorder(), _s(t.getCtrCoord()),
           [_s(v) for v in t.getVertexList()]]
    for x in range(nx):
        for y in range(ny):
            p = t[x, y]
            out.append((tuple(p.getIndex()), _b(p.getInnerBBox()), _b(p.getOuterBBox()),
                        scen_sys._try(lambda: [tuple(v) for v in p.getOuterSkyPolygon().getVertices()])))
    b = t.getBBox()
    cs = [w.pixelToSky(geom.Point2D(b.getWidth()*fx, b.getHeight()*fy)) for fx, fy in ((.5, .5), (.1, .2), (.95, .7), (1.2, .5))]
    for c in cs:
        out.append((scen_sys._try(t.contains, c), scen_sys._try(lambda: tuple(t.findPatch(c).getIndex()))))
    out.append([tuple(p.getIndex()) for p in t.findPatchList(cs[:3])])
    return dg(out)


class Log:
    def __init__(self):
        self.out = []

    def info(self, msg, *a):
        self.out.append(msg % a if a else msg)


def log_of(m):
    x = Log()
    m.logSkyMapInfo(x)
    return dg(x.out)


def array(m, d):
    cs = [scen_sys.find_coord(d, j) for j in range(6)]
    ra = np.array([c.getLongitude().asDegrees() for c in cs])
    dec = np.array([c.getLatitude().asDegrees() for c in cs])
    return dg([int(v) for v in m.findTractIdArray(ra, dec, degrees=True)] + [int(m.findTract(c).getId()) for c in cs])


def pair_unit(R, rng, d, kind, tb):
    m = build(d, kind, tb, "a")
    ref = confs.build(d)
    n = len(ref)

    def pair(what, f):
        err, v = call(lambda: (f(m), f(ref)), limit=60)
        R("pair", what=what, err=err, a="" if err else str(v[0]), b="" if err else str(v[1]))
    pair("len", len)
    pair("ids", lambda x: [t.getId() for t in x])
    pair("log", log_of)
    pair("array", lambda x: array(x, d))
    for i in range(n):
        pair("tract %d" % i, lambda x: boxes(x[i]))
        if not (tb or "").endswith("columns"):
            pair("answers %d" % i, lambda x: tract_answers(x[i]))
    for j in range(4):
        pair("found %d" % j, lambda x: find_answer(x, d, j)[1])
        pair("search %d" % j, lambda x: search_answer(x, d, j))

    def kin(what, x, y, want):
        err, v = call(lambda: (x == y, y == x, x != y, y != x, x.getSha1().hex(), y.getSha1().hex(), hash(x) == hash(y)))
        if not err and (v[0] != v[1] or v[2] != v[3] or (v[0] and not v[6])):
            err = ["Unsymmetric"]
        R("kin", what=what, err=err, want=want, eq=bool(v and v[0]), ne=bool(v and v[2]), sha1="" if err else v[4], sha2="" if err else v[5])
    kin("package", m, ref, False)
    kin("like", m, build(d, kind, tb, "a"), True)
    for k in KINDS:
        if k != kind:
            kin("other class", m, build(d, k, tb), False)
    e = scen_sys.variant(rng, d)
    if e.get("tb", "legacy") == d.get("tb", "legacy"):
        kin("other options", m, build(e, kind, tb, "a"), False)
    if kind == "args":
        kin("other remark", m, build(d, kind, tb, "b"), False)
    for how in range(3):
        with guard(R, "own copy"):
            c = [lambda: pickle.loads(pickle.dumps(m)), lambda: copy.copy(m), lambda: copy.deepcopy(m)][how]()
            kin("copy", m, c, True)
            R("pair", what="class", err=[], a=type(c).__name__ + getattr(c, "remark", ""), b=type(m).__name__ + getattr(m, "remark", ""))
            R("pair", what="copy", err=[], a=boxes(c[n - 1]), b=boxes(m[n - 1]))
            R("pair", what="tract class", err=[], a=str(c[0]), b="OwnTract(0)")
    # one object for each tract, of the class of its own
    for what, f in (("find", lambda: m.findTract(ref[n//2].getCtrCoord())), ("iter", lambda: list(m)[n//2]),
                    ("list", lambda: [t for t, _ in m.findTractPatchList([ref[n//2].getCtrCoord()])])):
        err, t = call(f)
        if what == "list" and not err:
            t = next((x for x in t if x.getId() == n//2), None)
        elif not err and what == "find" and t.getId() != n//2:
            t = m[t.getId()]
            R("pair", what="object", err=[], a=str(t is m[t.getId()]), b="True")
            continue
        if t is not None:
            R("pair", what="object " + what, err=err, a=str(t is m[n//2]), b="True")
    knd = "columns" if (tb or "").endswith("columns") else "rows"
    for i in range(n):
        numbers(R, rng, m, i, knd)
    agree(R, rng, d, tb)
    if tb and sum(len(t) for t in ref) < 200:
        records(R, rng, m, knd)


def numbers(R, rng, m, i, knd):
    t = m[i]
    nx, ny = t.getNumPatches()

    def go():
        rows = []
        for x, y in rng.sample([(x, y) for x in range(nx) for y in range(ny)], min(12, nx*ny)) + [(nx - 1, 0), (0, ny - 1)]:
            p = t[x, y]
            s = p.getSequentialIndex()
            b = t.getPatchIndexPair(s)
            q = t[s]
            rows.append(IL([x, y, s, t.getSequentialPatchIndex(p), t.getSequentialPatchIndexFromPair((x, y)),
                            b[0], b[1], q.getIndex()[0], q.getIndex()[1]]))
        visit = [IL(p.getIndex(), 2) for p in t]
        return rows, visit, len(t)
    err, v = call(go)
    R("numbers", kind=knd, nx=I(nx), ny=I(ny), err=err, rows=v[0] if v else [], visit=v[1] if v else [], n=I(v[2]) if v else BAD)


def agree(R, rng, d, tb):
    """A map with its own way to find tracts: all lookups go that way."""
    e = json.loads(json.dumps(d))
    t = e["top"]
    for j in range(1, len(t["raList"])):       # tracts which overlap
        t["raList"][j] = round((t["raList"][j - 1] + rng.uniform(.2, 1)*t["radiusList"][j - 1]) % 360, 5)
        t["decList"][j] = round(max(-80, min(80, t["decList"][j - 1] + rng.uniform(-.5, .5)*t["radiusList"][j])), 5)
    m = build(e, "last", tb)
    n = rng.choice([1, 5, 40, 200])
    cs = []
    for k in range(n):
        c = sp(t["raList"][k % len(t["raList"])], max(-89, min(89, t["decList"][k % len(t["raList"])])))
        cs.append(c.offset(rng.uniform(0, 360)*geom.degrees, rng.uniform(0, 1.2)*t["radiusList"][0]*geom.degrees))
    err, v = call(lambda: m.findTractIdArray(np.array([c.getLongitude().asRadians() for c in cs]),
                                             np.array([c.getLatitude().asRadians() for c in cs])), limit=60)
    v = [BAD]*n if err else IL(v, n)
    js = list(range(min(n, 12)))
    # the stand-in of a position may differ by a rounding when it comes by way of an array
    want = [I(m.findTract(geom.SpherePoint(c.getLongitude().asRadians()*geom.radians, c.getLatitude().asRadians()*geom.radians)).getId()) for c in cs]
    err2, near = call(lambda: [IL([t.getId() for t, _ in m.findClosestTractPatchList([cs[j]])]) for j in js], limit=60)
    R("agree", err=err + err2, want=want, array=v, near=near or [], has=[bool(m[want[j]].contains(cs[j])) for j in js])


def records(R, rng, m, knd):
    import scen_reg
    from lsst.daf.butler import Butler
    p = scen_reg.fresh()
    try:
        def go():
            m.register("own", Butler.from_config(p, writeable=True))
            b = Butler.from_config(p, writeable=False)
            r = list(b.registry.queryDimensionRecords("patch", skymap="own"))
            x = b.get("skyMap", skymap="own", collections="skymaps")
            return r, x == m and type(x) is type(m)
        err, v = call(go, limit=60)
        for i in range(len(m)):
            nx, ny = m[i].getNumPatches()
            R("records", kind=knd, nx=I(nx), ny=I(ny), err=err, rows=[] if err else [[I(r.id), I(r.cell_x), I(r.cell_y)] for r in v[0] if r.tract == i])
        R("pair", what="stored", err=err, a=str(bool(v and v[1])), b="True")
    finally:
        shutil.rmtree(p, ignore_errors=True)


def suite_pairs(seed, tier, cases):
    import scen_reg
    rng = rng_for(seed, "ownpairs")
    out = []
    for i in range(32 if tier == "quick" else 240):
        d = scen_reg.small(rng, "discrete") if i % 2 else confs.rand_desc(rng, cls="discrete", maxpatch=5)
        legacy = d.get("tb", "legacy") == "legacy"
        if not legacy and i % 4 == 0:
            d = json.loads(json.dumps(d))
            d["tb"], d["sub"] = "legacy", dict(patchInnerDimensions=list(confs.inner_dims(d)), patchBorder=rng.randint(0, 20))
            legacy = True
        out.append(("ownpair %d" % i, pair_unit, (d, KINDS[i//2 % 4], ["owncolumns", "ownrows", "legacycolumns", None][i % 4] if legacy else ["cellscolumns", None, "cellscolumns"][i % 3])))
    return out
