"""Threads that share sky maps, switched as spec/MCThreads.tla says (spec/TraceThread.tla).

Only one thread runs at a time.  A thread is stopped before a line (or a byte code) of the code of
lsst.skymap and another goes on, so that a schedule is repeatable; a stretch of an operation is a
number of lines of it.  Threads that wait for each other (for a lock) are left to themselves.
"""
import json
import os
import pickle
import sys
import threading
import time

from common import *  # noqa: F401,F403
from common import geom
import confs
import scen_sys
from scen_sys import dg, tract_answers, patch_answers, patch_of, find_answer, search_answer, facts, _b, _s, _try, call

CODE = os.path.join(os.path.realpath(REPO), "python", "lsst", "skymap") + os.sep
STALL = 0.6


def brief(t):
    """Some of what a tract reports."""
    b = t.getBBox()
    n = t.getNumPatches()
    w = t.getWcs()
    c = w.pixelToSky(geom.Point2D(b.getWidth()*0.4, b.getHeight()*0.6))
    p = t[n[0]//2, n[1]//2]
    return [t.getId(), _b(b), tuple(n), tuple(t.getPatchInnerDimensions()), t.getPatchBorder(), _s(t.getCtrCoord()), _s(c),
            [_s(v) for v in t.getVertexList()], tuple(p.getIndex()), p.getSequentialIndex(), _b(p.getInnerBBox()), _b(p.getOuterBBox()),
            tuple(p.getCellInnerDimensions()), p.getCellBorder(), _try(t.contains, c), _try(lambda: tuple(t.findPatch(c).getIndex())),
            _try(lambda: t.getInnerSkyRegion().encode()), _try(lambda: t.getOuterSkyPolygon().encode()), _try(lambda: p.getOuterSkyPolygon().encode())]


OWN = ("where", "grid", "cell", "poly")


class Place:
    """What the threads share: a map, objects got from it before, a packer."""

    def __init__(self, d, d2, warm, idx):
        self.d, self.d2 = d, d2
        self.m = confs.build(d)
        self.pre = {}
        for i in idx:
            if i < len(self.m) and warm:
                t = self.m[i]
                self.pre[i] = t, patch_of(t)
        self.pk = None

    def packer(self):
        import scen_pack
        if self.pk is None:
            self.pk = scen_pack.make("ctor", [9, 6, 4], ["tract", "patch", "band"], None, -1, -1, -1, False)
        return self.pk


def run_op(w, kind, i):
    """One operation of a thread; -> digest of all it was told."""
    m, d = w.m, w.d
    if kind[:-1] in OWN and i not in w.pre or kind in ("ask", "askpatch") and i not in w.pre:
        t = m[i]
        w.pre[i] = t, patch_of(t)
    if kind == "id":
        t = m[i]
        return dg([t.getId(), _s(t.getCtrCoord()), tuple(t.getNumPatches())])
    if kind == "ids":
        n = len(m)
        return dg([m[j].getId() for j in (i, (i + 1) % n, i, i, (i + 1) % n)])
    if kind == "tract":
        return dg(brief(m[i]))
    if kind == "full":
        return tract_answers(m[i])
    if kind == "ask":
        return tract_answers(w.pre[i][0])
    if kind == "askpatch":
        return patch_answers(w.pre[i][1])
    if kind[:-1] in OWN:
        # short, so that every line of it is cut: two threads ask one tract or patch different things
        t, p = w.pre[i]
        v = int(kind[-1])
        if kind[:-1] == "where":
            b = t.getBBox()
            c, e = (t.getWcs().pixelToSky(geom.Point2D(b.getWidth()*x, b.getHeight()*y))
                    for x, y in ([(0.05, 0.1), (0.1, 0.2)], [(0.93, 0.9), (0.7, 0.95)])[v])
            return dg([_try(t.contains, c), _try(lambda: tuple(t.findPatch(c).getIndex())),
                       _try(lambda: [tuple(q.getIndex()) for q in t.findPatchList([c, e])])])
        if kind[:-1] == "grid":
            nx, ny = t.getNumPatches()
            x, y = [(0, 0), (nx - 1, ny - 1)][v]
            q = t[x, y]
            return dg([tuple(q.getIndex()), q.getSequentialIndex(), _b(q.getInnerBBox()), _b(q.getOuterBBox()), tuple(t.getPatchIndexPair(v)),
                       t.getSequentialPatchIndex(q), _try(lambda: tuple(t[v].getIndex())), _try(lambda: tuple(t[nx + v, 0].getIndex()))])
        if kind[:-1] == "cell":
            k = [(0, 0), (max(p.getNumCells()[0] - 1, 0), 1)][v]
            return dg([_try(lambda: [(tuple(q.getIndex()), q.getSequentialIndex(), _b(q.getInnerBBox()), _b(q.getOuterBBox())) for q in (p[k],)]),
                       _try(lambda: tuple(p.getCellIndexPair(v))), _try(lambda: p.getSequentialCellIndexFromPair(k))])
        if kind[:-1] == "poly":
            f = [lambda: p.getInnerSkyPolygon().encode(), lambda: p.getOuterSkyPolygon().encode()]
            g = [lambda: t.getOuterSkyPolygon().encode(), lambda: t.getInnerSkyPolygon().encode()]
            return dg([_try(f[v]), _try(g[v])])
        raise KeyError(kind)
    if kind == "find":
        return find_answer(m, d, i)[1]
    if kind == "search":
        return search_answer(m, d, i)
    if kind == "iter":
        return dg([(t.getId(), tuple(t.getNumPatches()), _s(t.getCtrCoord())) for _, t in zip(range(8), m)])
    if kind == "sha":
        return dg([m.getSha1().hex(), str(hash(m)), len(m), sorted(m.config.toDict())])
    if kind == "pickle":
        n = pickle.loads(pickle.dumps(m))
        f = facts(n)
        return dg([sorted(f.items()), brief(n[i]), n == m])
    if kind == "equal":
        return dg([m == confs.build(d), m == confs.build(w.d2), m != confs.build(d)])
    if kind == "build":
        n = confs.build(w.d2)
        return dg([n.getSha1().hex(), brief(n[i % len(n)])])
    if kind == "pack":
        from lsst.daf.butler import DataCoordinate
        p = w.packer()
        out = []
        for k in range(3):
            q = DataCoordinate.standardize(skymap="sky", tract=(i + 3*k) % 10, patch=(5*i + k) % 24, band="grizy"[(i + k) % 5], universe=p.dimensions.universe)
            v = p.pack(q)
            out.append((int(v), sorted((a, str(b)) for a, b in dict(p.unpack(v).required).items()), p.maxBits))
        return dg(out)
    raise KeyError(kind)


def alone(d, d2, kind, i):
    return run_op(Place(d, d2, False, ()), kind, i)


class Stop(BaseException):
    pass


class Thread:
    """A thread with a list of operations [(kind, i, [cuts])]; cuts: after how many points of the operation it pauses."""

    def __init__(self, stage, t, ops):
        self.stage, self.t, self.ops = stage, t, ops
        self.state = "ready"         # ready (paused) / running / done
        self.quota, self.count = None, 0
        self.dropped = False
        self.thread = threading.Thread(target=self.run, daemon=True)

    def pause(self):
        s = self.stage
        with s.cond:
            if s.free:
                return
            self.state = "ready"
            s.cond.notify_all()
            while self.state == "ready" and not s.free:
                s.cond.wait(5)
            self.state = "running"

    def local(self, frame, event, arg):
        if self.quota is not None and event == self.stage.grain:
            self.count += 1
            while self.quota and self.count >= self.quota[0]:
                self.quota.pop(0)
                self.pause()
        return self.local

    def trace(self, frame, event, arg):
        if self.quota is None or not frame.f_code.co_filename.startswith(CODE):
            return None
        if self.stage.grain == "opcode":
            frame.f_trace_opcodes = True
        return self.local

    def run(self):
        s = self.stage
        self.pause()
        sys.settrace(self.trace)
        try:
            for n, (kind, i, cuts) in enumerate(self.ops):
                s.R("start", t=self.t, c=s.c, kind=kind, i=i)
                self.quota, self.count = list(cuts), 0
                err, v = [], None
                try:
                    v = run_op(s.w, kind, i)
                except Exception as e:
                    err = names(e)
                while self.quota:            # it was shorter than foreseen
                    self.quota.pop(0)
                    self.pause()
                self.quota = None
                s.R("end", t=self.t, c=s.c, kind=kind, i=i, err=err, dig=v if not err else "!" + err[0])
                if n < len(self.ops) - 1:
                    self.pause()
        finally:
            sys.settrace(None)
            with s.cond:
                self.state = "done"
                s.cond.notify_all()


class Stage:
    """Runs threads over one Place as a schedule of thread numbers says."""
    stalls = 0

    def __init__(self, R, c, w, progs, grain):
        self.R, self.c, self.w, self.grain = R, c, w, grain
        self.cond = threading.Condition()
        self.free = False
        self.ts = {t: Thread(self, t, ops) for t, ops in progs.items()}
        R("stage", c=c, nt=len(progs), grain=grain)

    def go(self, sched):
        for t in self.ts.values():
            t.thread.start()
        try:
            for n in sched:
                t = self.ts[n]
                with self.cond:
                    if t.state != "ready":
                        continue
                    t.state = "running"
                    self.cond.notify_all()
                    end = time.time() + (STALL if Stage.stalls < 8 else 0.05)
                    while t.state == "running":
                        if not self.cond.wait(max(0.001, end - time.time())) and time.time() >= end:
                            Stage.stalls += 1        # waits for another one
                            break
        finally:
            with self.cond:
                self.free = True
                self.cond.notify_all()
        for n, t in self.ts.items():
            t.thread.join(30)
            if t.thread.is_alive():
                op = next((o for o in reversed(self.R.ev) if o["op"] == "start" and o["t"] == n), None)
                self.R("end", t=n, c=self.c, kind=op["kind"], i=op["i"], err=["Hang"], dig="!Hang")
                raise RuntimeError("a thread did not end")


def length(d, d2, kind, i, grain, memo={}):
    """The number of points of an operation on a fresh map."""
    k = (confs.key(d), confs.key(d2), kind, i, grain)
    if k not in memo:
        w = Place(d, d2, kind in ("ask", "askpatch"), (i,))
        R = Rec()
        s = Stage(R, "x", w, {1: [(kind, i, [10**9])]}, grain)
        t = s.ts[1]
        t.thread.start()
        with s.cond:
            s.free = True
            s.cond.notify_all()
        t.thread.join(60)
        memo[k] = max(1, t.count)
    return memo[k]


KINDS = ["tract"]*6 + ["id", "id", "ids"] + ["find"]*2 + ["search", "iter", "sha", "pickle", "equal", "build", "build", "full", "ask", "ask", "askpatch", "pack"]


class Home:
    """References of one pair of configurations."""
    n = 0

    def __init__(self, R, d, d2):
        Home.n += 1
        self.R, self.d, self.d2, self.c, self.sent = R, d, d2, "c%d" % Home.n, set()

    def need(self, kind, i):
        if (kind, i) not in self.sent:
            self.sent.add((kind, i))
            err, a = scen_sys.ZYG.ask("op", self.d, self.d2, kind, i)
            self.R("ref", c=self.c, kind=kind, i=i, dig=a if not err else "!" + err[0])

    def after(self, w, ops):
        """When the threads have ended the map still says the same, with one object for each tract."""
        for kind, i in ops:
            self.need(kind, i)
            err, v = call(run_op, w, kind, i)
            err2, same = call(lambda: w.m[i] is w.m[i])
            self.R("after", c=self.c, kind=kind, i=i, dig=v if not err else "!" + err[0], same=bool(same))


def draw(rng, cls):
    """A small map and one like it but for an option."""
    for _ in range(60):
        d = confs.rand_desc(rng, cls=cls, maxpatch=4)
        if cls == "discrete" and len(d["top"]["raList"]) < 3:
            continue
        if cls == "rings" and d["top"]["numRings"] > 5:
            continue
        if cls == "healpix" and d["top"]["log2NSide"] > 1:
            continue
        if confs.ntracts(d) <= 60:
            break
    d2 = scen_sys.variant(rng, d) if rng.random() < 0.6 else scen_sys.sibling(rng, d)
    return d, d2


def u_sched(R, rng, cls, cases):
    """Schedules of the model: every step is a stretch of the operation."""
    d, d2 = draw(rng, cls)
    H = Home(R, d, d2)
    n = confs.ntracts(d) if cls != "rings" else len(confs.build(d))
    idx = {0: rng.randrange(n), 1: rng.randrange(n), 2: rng.randrange(n)}
    for case in cases:
        grain = rng.choice(["line", "line", "opcode"])
        kind0 = rng.choice(KINDS)
        prog, steps = {}, {}
        for t, pc in case["sched"]:
            if pc == "idle":
                steps.setdefault(t, []).append(0)
            steps[t][-1] += 1
        for t, ops in enumerate(case["prog"], 1):
            prog[t] = []
            for k, i in enumerate(ops):
                kind = kind0 if rng.random() < 0.5 else rng.choice(KINDS)
                H.need(kind, idx[i])
                L = length(d, d2, kind, idx[i], grain)
                hi = L if rng.random() < 0.6 else max(2, L//5)
                cuts = sorted(rng.randint(1, hi) for _ in range(steps[t][k] - 1))
                prog[t].append((kind, idx[i], cuts))
        w = Place(d, d2, any(o[0] in ("ask", "askpatch") for p in prog.values() for o in p), set(idx.values()))
        w.packer()
        s = Stage(R, H.c, w, prog, grain)
        s.go([t for t, _ in case["sched"]])
        H.after(w, [("tract", i) for i in sorted(set(idx.values()))] + [("sha", 0), ("find", 1)])


def u_cuts(R, rng, cls, ka, kb, want, warm=None, far=None):
    """Every place of an operation (or a sample) is interrupted by another one from start to end."""
    for _ in range(30):
        d, d2 = draw(rng, cls)
        # threads that ask one tract different things: of one with several patches (and cells)
        if ka[:-1] not in OWN or ((d["tb"] == "cells" or ka != "cell0") and min(confs.build(d)[0].getNumPatches()) > 1):
            break
    if {ka, kb} & {"build", "pickle", "equal"} and cls in ("dodeca", "equat"):
        want = min(want, max(8, want//5))        # these make all their tracts
    H = Home(R, d, d2)
    n = confs.ntracts(d) if cls != "rings" else len(confs.build(d))
    i = rng.randrange(n)
    far = rng.random() < 0.5 if far is None else far
    j = (i + rng.randrange(1, n)) % n if far and n > 1 else i
    warm = rng.choice([0, 0, 1, 2]) if warm is None else warm
    H.need(ka, i)
    H.need(kb, j)
    grain = "line" if rng.random() < 0.7 or ka[:-1] in OWN else "opcode"

    def place():
        w = Place(d, d2, "ask" in (ka[:3], kb[:3]) or ka[:-1] in OWN, {i, j})
        if "pack" in (ka, kb):
            w.packer()
        for k, t in [(kb, j), (ka, i)][:warm and 2]:       # it was used before, by one thread
            call(run_op, w, k, t)
        if warm == 2:
            call(run_op, w, kb, j)
        return w
    # the length of the operation in this place
    s = Stage(R, H.c, place(), {1: [(ka, i, [10**9])]}, grain)
    s.go([1])
    L = max(1, s.ts[1].count)
    at = list(range(1, L + 1)) if L <= want else sorted(rng.sample(range(1, L + 1), want))
    for s in at:
        w = place()
        st = Stage(R, H.c, w, {1: [(ka, i, [s])], 2: [(kb, j, [])]}, grain)
        st.go([1, 2, 1])
        H.after(w, [("id", i), ("tract", j)] if s % 4 == 0 else [("id", j)])


def suite_sched(seed, tier, cases, quick=128, thorough=1000):
    scen_sys.ZYG = scen_sys.Zygote()
    with open(cases) as f:
        cs = sorted({l for l in f})
    rng = rng_for(seed, "thr")
    rng.shuffle(cs)
    cs = [json.loads(c) for c in cs[:quick if tier == "quick" else thorough]]
    k = 8
    groups = [cs[a:a + k] for a in range(0, len(cs), k)]
    CL = ["rings", "discrete", "healpix", "equat", "dodeca"]
    return [("sched %d" % g, u_sched, (CL[g % 5], c)) for g, c in enumerate(groups)]


def suite_three(seed, tier, cases):
    return suite_sched(seed, tier, cases, 64, 2400)


# pairs of operations that share what they may keep: (kind, kind, warm, other tract)
CORE = [("ids", "ids", 1, True), ("ids", "ids", 0, True), ("tract", "tract", 0, True), ("tract", "tract", 0, True), ("tract", "tract", 0, False),
        ("pack", "pack", 0, True), ("sha", "sha", 0, False), ("sha", "equal", 0, False), ("find", "find", 1, True), ("find", "find", 0, True), ("search", "search", 0, True),
        ("ask", "ask", 0, False), ("ask", "ask", 0, True), ("askpatch", "askpatch", 0, True), ("askpatch", "askpatch", 0, False),
        ("build", "tract", 0, True), ("build", "build", 0, True), ("id", "iter", 1, True),
        ("where0", "where1", 1, False), ("grid0", "grid1", 1, False), ("cell0", "cell1", 1, False), ("poly0", "poly1", 1, False)]


def suite_cuts(seed, tier, cases):
    scen_sys.ZYG = scen_sys.Zygote()
    rng = rng_for(seed, "cuts")
    out = []
    CL = ["rings", "discrete", "healpix", "equat", "dodeca"]
    quick = tier == "quick"
    for k, (ka, kb, warm, far) in enumerate(CORE):
        for c in range(5):
            lazy = c < 3
            if quick and not (lazy and ka in ("ids", "tract")) and (k + c + int(seed)) % 5 > 1:
                continue
            if quick and (ka in ("sha", "pack") and c != k % 5):
                continue
            out.append(("core %d %s/%s %s" % (k, ka, kb, CL[c]), u_cuts, (CL[c], ka, kb, (400 if ka[:-1] in OWN else 120 if ka in ("pack", "tract") and lazy else 40) if quick else 1200, warm, far)))
    for r in range(16 if quick else 300):
        ka = rng.choice(KINDS)
        kb = ka if rng.random() < 0.4 else rng.choice(KINDS)
        out.append(("cuts %d %s/%s" % (r, ka, kb), u_cuts, (CL[r % 5], ka, kb, 40 if quick else 300)))
    return out
