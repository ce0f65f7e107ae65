"""Schedules of spec/MCLazy.tla replayed on maps that make tracts on request (spec/TraceLazy.tla)."""
import copy
import pickle
import shutil

from common import *  # noqa: F401,F403
from common import geom, np
import confs
import obs
import scen_sys
from scen_sys import Zygote, tract_answers, search_answer, read_cases, small_desc

EXC = ["RuntimeError", "IndexError", "LookupError", "MemoryError", "ValueError", "KeyboardInterrupt", "Stopped", "OSError"]


def centres(d):
    """What an undisturbed map says: how many tracts, where some are, and which tract is found there."""
    m = confs.build(d)
    n = len(m)
    idx = [0, n//2, n - 1]
    out = []
    for i in idx:
        c = m[i].getCtrCoord()
        c = c.offset(37.0*geom.degrees, 0.03*geom.degrees)
        ra, dec = c.getLongitude().asRadians(), c.getLatitude().asRadians()
        t = m.findTract(geom.SpherePoint(ra, dec, geom.radians)).getId()
        out.append((ra, dec, int(t)))
    return n, idx, out


def trial(f, limit=60):
    """Like call, for whatever a map lets through."""
    import lazymaps
    try:
        return call(f, limit=limit)
    except (lazymaps.Stopped, KeyboardInterrupt) as e:
        return names(e), None


class World:
    def __init__(self, R, rng, d, N):
        import lazymaps
        self.R, self.rng, self.d = R, rng, d
        self.lm = lazymaps
        self.exc = {n: getattr(lazymaps, n, None) or getattr(__import__("builtins"), n) for n in EXC}
        self.maps, self.conf, self.its, self.toks, self.armed = {}, {}, {}, {}, {}
        self.nh, self.sent = 0, set()
        self.at = 0
        R("begin")
        self.slow = 1.0
        self.one = d["cls"] != "discrete"
        err, a = scen_sys.ZYG.ask("lazy", d, 0)
        if err:
            raise RuntimeError("no answer of an undisturbed map: %s" % err)
        self.n, self.idx, self.pos = a

    def att(self, h):
        """The tracts the last operation began to make (those of another map: nonsense)."""
        new = self.lm.LOG[self.at:]
        self.at = len(self.lm.LOG)
        m = self.maps.get(h)
        return [I(i) if o is m else BAD for o, i in new]

    def exn(self, h, att):
        """The exception that the making of the last of these tracts raises."""
        return self.armed.get((h, att[-1]), "") if att else ""

    def tok(self, t):
        return self.toks.setdefault(id(t), (len(self.toks) + 1, t))[0]

    def need(self, what, i):
        if (what, i) not in self.sent:
            self.sent.add((what, i))
            err, a = scen_sys.ref(what, self.d, i)
            self.R("ref", what=what, i=i, dig=a if not err else "!" + err[0])

    def new(self):
        self.at = len(self.lm.LOG)
        cls = self.lm.OF[self.d["cls"]]
        c = confs.config(self.d)
        m = cls(c, version=self.d["version"]) if "version" in self.d else cls(c)
        self.add(m)
        self.R("new", h=self.nh, n=self.n, att=self.att(self.nh))

    def add(self, m):
        self.nh += 1
        self.maps[self.nh] = m

    def real(self, i):
        return self.idx[i]

    def arm(self, h, i):
        """The next making of a tract fails."""
        i = self.real(i) if i >= 0 else self.rng.randrange(self.n)
        e = self.rng.choice(EXC)
        self.lm.ARM[(id(self.maps[h]), i)] = [1, self.exc[e], self.rng.random() < .5]
        self.armed[(h, i)] = e
        self.R("arm", h=h, i=i, times=1)

    def get(self, h, i):
        m = self.maps[h]
        n = self.n
        if i < 0 or i >= len(self.idx):
            i = self.rng.choice([-1, -n, -n - 1, -n//2]) if i < 0 else self.rng.choice([n, n, n + 1, 2*n + 3])
            err, t = trial(lambda: m[i])
            self.R("bad", h=h, i=i, err=err, att=self.att(h))
            return
        i = self.real(i)
        j = self.rng.choice([int, int, np.int64, np.int32])(i)
        err, t = trial(lambda: m[j])
        a = self.att(h)
        self.R("get", h=h, i=i, err=err, exc=self.exn(h, a), att=a, id=BAD if err else self.id(t), tok=0 if err else self.tok(t))

    def id(self, t):
        try:
            return I(t.getId())
        except Exception:
            return BAD

    def quiet(self, h):
        m = self.maps[h]
        w = self.rng.choice(["len", "hash", "sha", "eq", "eq", "ne", "state", "pickle", "iter", "config", "bool", "repr"])
        o = self.maps[self.rng.choice(sorted(self.maps))]
        f = dict(len=lambda: len(m), hash=lambda: hash(m), sha=m.getSha1, eq=lambda: m == o, ne=lambda: m != o,
                 state=lambda: m.__reduce__(), pickle=lambda: pickle.dumps(m), iter=lambda: iter(m),
                 config=lambda: m.config.toDict(), bool=lambda: bool(m), repr=lambda: repr(m))[w]
        err, _ = trial(f)
        a = self.att(h)
        self.R("quiet", h=h, what=w, err=err, exc=self.exn(h, a), att=a)

    def find(self, h, i):
        m = self.maps[h]
        if self.rng.random() < .6:
            ra, dec, want = self.pos[i]
            c = geom.SpherePoint(ra, dec, geom.radians)
            err, t = trial(lambda: m.findTract(c))
            a = self.att(h)
            self.R("find", h=h, want=want, one=self.one, err=err, exc=self.exn(h, a), att=a,
                   id=BAD if err else self.id(t), tok=0 if err else self.tok(t))
            return
        k = self.rng.choice([[i], [i, 0], [0, 1 % len(self.pos), i]])
        deg = self.rng.random() < .5
        f = 180/math.pi if deg else 1.0
        ra = np.array([self.pos[j][0]*f for j in k])
        dec = np.array([self.pos[j][1]*f for j in k])
        err, v = trial(lambda: m.findTractIdArray(ra, dec, degrees=deg))
        a = self.att(h)
        self.R("array", h=h, want=[self.pos[j][2] for j in k], one=self.one, ids=[] if err else IL(v), err=err, exc=self.exn(h, a), att=a)

    def all(self, h):
        """A search over the map, or a question to one of its tracts."""
        m = self.maps[h]
        i = self.rng.randrange(4)
        if self.rng.random() < .5:
            self.need("s", i)
            err, v = trial(lambda: search_answer(m, self.d, i), limit=100)
            a = self.att(h)
            self.R("all", h=h, i=i, err=err, exc=self.exn(h, a), dig=v or "", att=a)
        else:
            self.query(h, self.rng.choice(self.idx))

    def query(self, h, i):
        self.need("t", i)
        m = self.maps[h]
        err, v = trial(lambda: tract_answers(m[i]), limit=60)
        a = self.att(h)
        self.R("query", h=h, i=i, err=err, exc=self.exn(h, a), dig=v or "", att=a)

    def iter(self, h):
        t = len(self.its) + 1
        self.its[t] = (h, iter(self.maps[h]))
        self.R("iter", t=t, h=h, att=self.att(h))

    def step(self, t, k):
        h, it = self.its[t]
        for _ in range(k):
            err, o = trial(lambda: next(it))
            stop = "StopIteration" in err
            if stop:
                err = []
            a = self.att(h)
            bad = stop or bool(err)
            self.R("step", t=t, h=h, stop=stop, err=err, exc=self.exn(h, a), att=a, id=BAD if bad else self.id(o), tok=0 if bad else self.tok(o))
            if bad:
                break

    def copy(self, h):
        m = self.maps[h]
        p = self.rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
        f = self.rng.choice([lambda: pickle.loads(pickle.dumps(m, p)), lambda: copy.copy(m), lambda: copy.deepcopy(m)])
        err, c = trial(f)
        a = self.att(h)
        self.add(c)
        self.R("copy", h=h, h2=self.nh, err=err, att=a)

    def register(self, h):
        """Into a repository of its own."""
        import scen_reg
        from lsst.daf.butler import Butler
        p = scen_reg.fresh()
        m = self.maps[h]
        try:
            b = Butler.from_config(p, writeable=True)
            err, _ = trial(lambda: m.register("sky", b), limit=100)
            a = self.att(h)
            b2 = Butler.from_config(p, writeable=False)
            there = len(list(b2.registry.queryDimensionRecords("skymap"))) > 0
            self.R("register", h=h, err=err, exc=self.exn(h, a), att=a, there=there)
        finally:
            shutil.rmtree(p, ignore_errors=True)


def run(R, rng, d, ops, N, reg):
    import lazymaps
    lazymaps.LOG.clear()
    lazymaps.ARM.clear()
    W = World(R, rng, d, N)
    with guard(R, "new"):
        W.new()
    per = -(-W.n//N)
    regs = reg
    for o in ops:
        with guard(R, "lazy " + o[0]):
            op, h = o[0], o[1]
            if op in ("get", "find", "all", "step") and rng.random() < .3:
                g = h if op != "step" else W.its[h][0]
                W.arm(g, o[2] if op in ("get", "find") and 0 <= o[2] < N else -1)
            if op == "step":
                W.step(h, per if W.n > N else 1)
            elif op in ("get", "find"):
                getattr(W, op)(h, o[2])
            elif op == "arm":
                if o[2] < len(W.idx):
                    W.arm(h, o[2])
            elif op == "all" and regs and rng.random() < .5:
                regs -= 1
                W.register(h)
            else:
                getattr(W, op)(h)
    for h in list(W.maps):          # afterwards every map is as good as new
        with guard(R, "lazy end"):
            for i in W.idx:
                W.query(h, i)
                W.query(h, i)
            W.iter(h)
            t = len(W.its)
            W.step(t, W.n + 1)


def suite_sched(seed, tier, cases):
    scen_sys.ZYG = Zygote()
    rng = rng_for(seed, "lazy")
    N = 3
    ss = read_cases(cases, 64 if tier == "quick" else 600, seed)
    out = []
    for i, s in enumerate(ss):
        cls = ["discrete", "rings", "healpix", "discrete", "rings"][i % 5]
        if cls == "discrete" and i % 2:
            d = small_desc(rng, cls, N)
        else:
            while True:
                d = confs.rand_desc(rng, cls=cls, maxpatch=4)
                if 3 <= confs.ntracts(d) <= 50:
                    break
        out.append(("lazy %d %s" % (i, cls), run, (d, s, N, 2 if i % 4 == 0 else 0)))
    return out
