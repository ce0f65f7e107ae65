"""Configurations, equality and hashes (spec/TraceCfg.tla)."""
import io
import json
import math
import os
import tempfile

from common import *  # noqa: F401,F403
from common import np
import confs
import obs

FLOATS = {"tractOverlap", "pixelScale", "rotation", "raStart", "decRange", "raList", "decList", "radiusList"}


def show(o, v):
    """A value as the specification writes it."""
    if v is None:
        return "None"
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, str):
        return v
    f = o.split(".")[-1] in FLOATS
    try:
        if hasattr(v, "__len__"):
            return "[" + ", ".join(repr(float(x)) if f else str(int(x)) for x in v) + "]"
        return repr(float(v)) if f else (str(int(v)) if int(v) == v else repr(v))
    except Exception:
        return "?" + repr(v)


def given_opts(d):
    top, tb, sub = confs.full(d)
    out = {"tractBuilder": tb}
    for k, v in top.items():
        out[k] = show(k, v)
    for b in ("legacy", "cells"):
        s = dict(confs.DEFAULTS[b])
        if b == "legacy":
            s.update(confs.CLASSDEF[d["cls"]][1])
        if b == tb:
            s.update(sub)
        for k, v in s.items():
            out[b + "." + k] = show(k, v)
    return out


def read_opts(c, cls):
    out = {"tractBuilder": S(c.tractBuilder.name)}
    for k in list(confs.DEFAULTS["top"]) + list(confs.DEFAULTS[cls]) + (["numRings"] if cls == "rings" else []):
        out[k] = show(k, getattr(c, k))
    for b in ("legacy", "cells"):
        for k in confs.DEFAULTS[b]:
            out[b + "." + k] = show(k, getattr(c.tractBuilder[b], k))
    return out


def build(d):
    return confs.build(d)


def cmap(R, k, d, m=None):
    """Builds a map and announces it."""
    err = []
    if m is None:
        err, m = call(build, d)
    e = dict(k=k, cls=d["cls"], err=err, sha="", sha2="", hash="", n20=0, opts={}, given=given_opts(d))
    if not err:
        def go():
            s = m.getSha1()
            h = hash(m)
            _ = m == m, len(m), m[0].getId() if len(m) else 0
            return dict(sha=s.hex(), n20=len(s) if isinstance(s, bytes) else 0, sha2=m.getSha1().hex() if hash(m) == h else "!",
                        hash=str(h), opts=read_opts(m.config, d["cls"]))
        err, f = call(go)
        e["err"] = err
        if not err:
            e.update(f)
    R("cmap", **e)
    return m if not e["err"] else None


def pair(R, ka, a, kb, b):
    err, v = call(lambda: (a == b, b == a, a != b))
    v = v or (None, None, None)
    R("pair", a=ka, b=kb, err=err, eq=bool(v[0]), rev=bool(v[1]), ne=bool(v[2]))


# ------------------------------------------------------------ changes (C08)
def changed(d, option, change, rng):
    """A description with one option changed; None when not applicable."""
    n = json.loads(json.dumps(d))
    if option == "tractBuilder":
        n["tb"] = "cells" if d["tb"] == "legacy" else "legacy"
        n["sub"] = {}
        return n
    if "." in option:
        tb, o = option.split(".")
        top, _, sub = confs.full(d)
        v = sub[o]
        where = n["sub"]
    else:
        o = option
        v = confs.full(d)[0][o]
        where = n["top"]
    isf = o in FLOATS

    def bump(x):
        return x + (0.5 if isf else 1)
    if change == "flip":
        w = not v
    elif change.startswith("letter"):
        j = int(change[-1])
        # another three letter code differing in this letter only
        alts = {"TAN": ["XAN", "TXN", "TAX"], "STG": ["XTG", "SXG", "STX"], "ZEA": ["XEA", "ZXA", "ZEX"],
                "ARC": ["XRC", "AXC", "ARX"], "CEA": ["XEA", "CXA", "CEX"], "CAR": ["XAR", "CXR", "CAX"],
                "MER": ["XER", "MXR", "MEX"], "SFL": ["XFL", "SXL", "SFX"]}
        w = alts[v][j]
    elif change in ("first", "middle", "last"):
        if not v:
            return None
        w = list(v)
        j = dict(first=0, middle=len(v)//2, last=len(v) - 1)[change]
        w[j] = bump(w[j]) if not (o == "raList" and w[j] > 359) else w[j] - 0.5
        if o == "decList":
            w[j] = w[j] - 1.0 if w[j] > 80 else w[j]
    elif change == "both":
        w = [x + 1 for x in v]
    elif change == "bigboth":
        w = [x + 65536 for x in v]
    elif change in ("bigfirst", "biglast"):
        w = list(v)
        w[0 if change == "bigfirst" else -1] += 65536
    elif change == "swap":
        w = list(v)
        if len(w) < 2 or w[0] == w[-1]:
            return None
        w[0], w[-1] = w[-1], w[0]
    elif change in ("ulp", "tiny"):
        def near(x):
            return float(np.nextafter(x, 1e9)) if change == "ulp" else x + 1e-9*max(1.0, abs(x))
        if isinstance(v, list):
            if not v:
                return None
            w = list(v)
            j = rng.randrange(len(w))
            w[j] = near(w[j])
        else:
            w = near(v)
    elif change == "up":
        w = bump(v)
    elif change == "big":
        w = v + 65536 if option not in ("numRings", "log2NSide", "numTracts") else v + {"numRings": rng.choice([64, 256, 256]), "log2NSide": 3,
                                                                                         "numTracts": 256}[option]
    else:
        raise KeyError(change)
    where[o] = w
    return n


LAZY = ("discrete", "rings", "healpix")


class FakeWcs:
    """Some projections in use are unknown to the stand-in: the hash does not need them."""


def hash_only(d):
    """A map of which only the configuration matters (no tracts are generated)."""
    return build(d)


def lazy_sha(R, k, d):
    """cmap without touching tracts (geometry may be out of reach of the stand-in)."""
    err, m = call(build, d)
    e = dict(k=k, cls=d["cls"], err=err, sha="", sha2="", hash="", n20=0, opts={}, given=given_opts(d))
    if not err:
        def go():
            s = m.getSha1()
            return dict(sha=s.hex(), n20=len(s) if isinstance(s, bytes) else 0, sha2=m.getSha1().hex(), hash=str(hash(m)),
                        opts=read_opts(m.config, d["cls"]))
        err, f = call(go)
        e["err"] = err
        if not err:
            e.update(f)
    R("cmap", **e)
    return m if not e["err"] else None


def base_desc(rng, cls, tb):
    while True:
        d = confs.rand_desc(rng, cls=cls, maxpatch=3)
        if d["tb"] == tb and confs.ntracts(d) < 800 and not (cls == "discrete" and len(d["top"]["raList"]) < 2):
            if cls == "equat":
                d["top"]["projection"] = "CEA"
            if cls == "discrete":
                d["top"]["decList"] = [min(85.0, x) for x in d["top"]["decList"]]
                d["top"]["tractOverlap"] = 0.25
            if tb == "legacy" and rng.random() < 0.7:
                a, b = d["sub"]["patchInnerDimensions"]
                if a == b:
                    d["sub"]["patchInnerDimensions"] = [a, b + 3]
            return d


def changes_unit(R, rng, cls, tb, changes):
    R("begin")
    d = base_desc(rng, cls, tb)
    a = cmap(R, 0, d)
    b = cmap(R, 1, json.loads(json.dumps(d)))
    if a is None or b is None:
        return
    pair(R, 0, a, 1, b)
    k = 1
    others = []
    for o, ch in changes:
        n = changed(d, o, ch, rng)
        if n is None:
            continue
        if o == "projection" and cls not in LAZY:
            # built at once: a real projection
            n["top"]["projection"] = rng.choice([p for p in (["STG", "TAN", "ZEA", "ARC"] if cls == "dodeca" else ["CEA", "CAR", "MER"])
                                                 if p != confs.full(d)[0]["projection"]])
        if not (confs.ntracts(n) < (150000 if cls == "rings" else 20000)):
            continue
        if cls not in LAZY and o in ("cells.numCellsPerPatchInner", "cells.cellBorder", "cells.numCellsInPatchBorder") and ch == "big":
            n["sub"][o.split(".")[1]] = confs.full(d)[2][o.split(".")[1]] + 1000
        k += 1
        m = lazy_sha(R, k, n)
        if m is None:
            continue
        pair(R, 0, a, k, m)
        pair(R, k, m, 0, a)
        if others and rng.random() < 0.5:
            kk, mm = rng.choice(others)
            pair(R, kk, mm, k, m)
        others.append((k, m))
    # equal maps again, built later, the first one used meanwhile
    call(lambda: [t.getId() for _, t in zip(range(3), a)])
    c = cmap(R, k + 1, json.loads(json.dumps(d)))
    if c is not None:
        pair(R, 0, a, k + 1, c)
    for what, v in (("None", None), ("int", 3), ("str", "skymap"), ("bytes", a.getSha1()), ("config", a.config), ("object", object()),
                    ("tract", a[0] if len(a) else 0), ("list", [1])):
        err, e = call(lambda: (a == v, v == a, a != v))
        R("other", k=0, what=what, err=err, eq=bool(e and (e[0] or e[1])), ne=bool(e and e[2]))


def suite_changes(seed, tier, cases):
    by = {}
    with open(cases) as f:
        for line in f:
            c = json.loads(line)
            if "option" not in c:
                continue
            by.setdefault((c["cls"], c["tb"]), []).append((c["option"], c["change"]))
    units = []
    for r in range(1 if tier == "quick" else 12):
        for (cls, tb), chs in sorted(by.items()):
            units.append(("changes %s %s %d" % (cls, tb, r), changes_unit, (cls, tb, sorted(chs))))
    return units


def member(d, f, v):
    """The configuration of a member of a family."""
    n = json.loads(json.dumps(d))
    t = n["top"]
    if f == "cells":
        n["tb"] = "cells"
        n["sub"] = dict(cellInnerDimensions=[v["cell"]]*2, cellBorder=v["border"], numCellsPerPatchInner=v["inner"],
                        numCellsInPatchBorder=v["outer"])
    elif f == "legacy":
        n["tb"] = "legacy"
        n["sub"] = dict(patchInnerDimensions=[v["dx"], v["dy"]], patchBorder=v["border"])
    elif f == "floats":
        t.update(tractOverlap=v["overlap"]/100, pixelScale=v["scale"]/100*(600 if n["cls"] not in LAZY else 1),
                 rotation=v["rotation"]/100)
    elif f == "equat":
        t.update(numTracts=v["n"], decRange=[v["lo"]/100, v["hi"]/100], rotation=v["rotation"]/100)
    elif f == "discrete":
        k = v["n"]
        t.update(raList=[v["ra1"]/100, v["ra2"]/100][:k], decList=[v["dec1"]/100, v["dec2"]/100][:k],
                 radiusList=[v["r1"]/100, v["r2"]/100][:k])
    elif f == "rings":
        t.update(numRings=v["n"], raStart=v["start"]/100, rotation=v["rotation"]/100)
    else:
        t.update(log2NSide=v["k"], nest=bool(v["nest"]), rotation=v["rotation"]/100)
    return n


def family_unit(R, rng, cls, f, vs):
    """All members of a family, each judged against all others by the specification."""
    R("begin")
    d = base_desc(rng, cls, rng.choice(["legacy", "cells"]))
    made = []
    for k, v in enumerate(vs):
        m = lazy_sha(R, k, member(d, f, v))
        if m is not None:
            for kk, mm in rng.sample(made, min(2, len(made))):
                pair(R, k, m, kk, mm)
            made.append((k, m))


def suite_families(seed, tier, cases):
    rng = rng_for(seed, "families")
    members, of = {}, {}
    with open(cases) as f:
        for line in f:
            c = json.loads(line)
            if "families" in c:
                of[c["cls"]] = sorted(c["families"])
            elif "family" in c:
                members.setdefault(c["family"], []).append(c["v"])
    units = []
    for r in range(1 if tier == "quick" else 6):
        for cls in sorted(of):
            for f in of[cls]:
                vs = list(members[f])
                rng.shuffle(vs)
                units.append(("family %s %s %d" % (cls, f, r), family_unit, (cls, f, vs)))
    return units


def random_unit(R, rng, n):
    """Random families of maps, each judged against all others."""
    R("begin")
    made = []
    cls = rng.choice(list(LAZY) + ["dodeca", "equat"])
    d0 = base_desc(rng, cls, rng.choice(["legacy", "cells"]))
    pool = [d0]
    for k in range(n):
        d = json.loads(json.dumps(rng.choice(pool)))
        for _ in range(rng.randint(0, 2)):
            tb = d["tb"]
            opts = ["tractOverlap", "pixelScale", "rotation"] + ["%s.%s" % (tb, o) for o in confs.DEFAULTS[tb]] + list(confs.DEFAULTS[cls])
            if cls == "rings":
                opts.append("numRings")
            o = rng.choice(opts)
            ch = {"withTractsOnPoles": "flip", "nest": "flip", "cells.cellInnerDimensions": "both"}.get(o)
            if ch is None:
                v = confs.full(d)[0].get(o, confs.full(d)[2].get(o.split(".")[-1]))
                ch = rng.choice(["swap", "first", "last"]) if isinstance(v, list) else "up"
            if o == "log2NSide" and confs.full(d)[0][o] > 4 or o == "raStart" and confs.full(d)[0][o] > 359:
                continue
            n2 = changed(d, o, ch, rng)
            if n2 is not None:
                d = n2
        pool.append(d)
        m = lazy_sha(R, k, d)
        if m is not None:
            if made:
                kk, mm = rng.choice(made)
                pair(R, k, m, kk, mm)
            made.append((k, m))


def suite_random(seed, tier, cases):
    return [("family %d" % i, random_unit, (14,)) for i in range(16 if tier == "quick" else 200)]


# ----------------------------------------------------------------- C27
def defaults_unit(R, rng):
    from lsst.skymap import skyMapRegistry, tractBuilderRegistry
    R("names", which="maps", names=sorted(S(x) for x in skyMapRegistry.keys()))
    R("names", which="builders", names=sorted(S(x) for x in tractBuilderRegistry.keys()))
    for cls in sorted(confs.DEFAULTS):
        if cls in ("top", "legacy", "cells"):
            continue
        err, o = call(lambda: read_opts(skyMapRegistry[cls].ConfigClass(), cls))
        R("defaults", cls=cls, err=err, opts=o or {})


def attempt(cls, tb, top, sub, version=None, valid_first=True):
    """Sets options, validates, builds and looks at a tract: raises if rejected anywhere."""
    from lsst.skymap import skyMapRegistry
    klass = skyMapRegistry[cls]
    c = klass.ConfigClass()
    c.tractBuilder.name = tb
    for k, v in sub.items():
        setattr(c.tractBuilder[tb], k, v)
    for k, v in top.items():
        setattr(c, k, v)
    c.validate()
    m = klass(c) if version is None else klass(c, version=version)
    if len(m) > 0:
        m[0].getNumPatches()
    return m


def valid_unit(R, rng, n):
    """Values around every documented limit."""
    small = dict(rings=dict(numRings=4, pixelScale=60.0, projection="TAN"), dodeca=dict(pixelScale=200.0, projection="STG"),
                 equat=dict(pixelScale=100.0), healpix=dict(pixelScale=200.0),
                 discrete=dict(raList=[10.0, 20.0], decList=[0.0, 5.0], radiusList=[1.0, 2.0], pixelScale=10.0))
    leg = dict(patchInnerDimensions=[300, 200], patchBorder=10)
    cel = dict(cellInnerDimensions=[50, 50], cellBorder=5, numCellsPerPatchInner=4, numCellsInPatchBorder=1)

    def go(f, v, cls, tb="legacy", top=None, sub=None, version=None):
        t = dict(small[cls])
        t.update(top or {})
        s = dict(leg if tb == "legacy" else cel)
        s.update(sub or {})
        err, _ = call(attempt, cls, tb, t, s, version)
        R("valid", cls=cls, tb=tb, f=f, v=v, err=err)

    def mdeg(x):
        return int(math.floor(x*1e6))
    for v in [-5, -1, 0, 1, 2, 3] + [rng.randint(-100, 60) for _ in range(n)]:
        go("numRings", [v], "rings", top=dict(numRings=v))
    for v in [-0.000001, 0.0, 0.000001, 359.999999, 360.0, 360.000001, -360.0, 720.0] + [round(rng.uniform(-100, 500), 4) for _ in range(n)]:
        go("raStart", [mdeg(v)], "rings", top=dict(raStart=v))
    for v in [0, 1, 2, 3, 4]:
        go("decRange", [v], "equat", top=dict(decRange=[-1.0, 2.0, 3.0, 4.0][:v] if v != 2 else [-1.0, 2.0]))
        for cls in ("rings", "discrete", "dodeca"):
            go("patchInnerDimensions", [v], cls, sub=dict(patchInnerDimensions=[300]*v))
    for cls in ("rings", "healpix", "dodeca", "equat", "discrete"):
        for v in ([50, 50], [50, 51], [51, 50], [49, 49], [1, 100], [100], [50, 50, 50], [], [rng.randint(40, 60), rng.randint(40, 60)]):
            go("cellInnerDimensions", list(v), cls, tb="cells", sub=dict(cellInnerDimensions=v))
        for v in ("", "T", "TA", "TAN", "TANG", "TAN ", "STG", "gnomonic", "STGX", "SIP-TAN"):
            if len(v) == 3 and cls == "equat":
                continue
            go("projection", [len(v)], cls, top=dict(projection=v))
    for a in range(4):
        for b in range(4):
            for c in range(4):
                if max(a, b, c) - min(a, b, c) < 2 or rng.random() < 0.3:
                    go("lengths", [a, b, c], "discrete", top=dict(raList=[10.0*(i + 1) for i in range(a)],
                                                                 decList=[5.0*i for i in range(b)], radiusList=[1.0 + i for i in range(c)]))
    for v in (-1, 0, 1, 2, 3, 10):
        go("version", [v], "rings", version=v)


def short_unit(R, rng, n):
    """patchInnerDimensions and patchBorder of the map configuration."""
    from lsst.skymap import skyMapRegistry
    for i in range(n):
        cls = rng.choice(["dodeca", "equat", "discrete", "rings", "healpix"])
        want = [rng.randint(1, 5000), rng.randint(1, 5000), rng.randint(0, 500)]
        c = skyMapRegistry[cls].ConfigClass()
        tb = rng.choice(["legacy", "legacy", "cells"])
        c.tractBuilder.name = tb

        def go(way):
            if way == 0:
                c.patchInnerDimensions = [want[0], want[1]]
                c.patchBorder = want[2]
            elif way == 1:
                c.setPatchInnerDimensions((want[0], want[1]))
                c.setPatchBorder(want[2])
            else:
                c.tractBuilder["legacy"].patchInnerDimensions = [want[0], want[1]]
                c.tractBuilder["legacy"].patchBorder = want[2]
            leg = c.tractBuilder["legacy"]
            a = list(c.patchInnerDimensions) + [c.patchBorder]
            if a != list(c.getPatchInnerDimensions()) + [c.getPatchBorder()]:
                a = [BAD]
            return a, list(leg.patchInnerDimensions) + [leg.patchBorder]
        err, v = call(go, i % 3)
        v = v or ([], [])
        R("short", cls=cls, want=want, err=err, short=IL(v[0]), legacy=IL(v[1]))


def parent():
    """A task configuration with a sky map in it (importable, as saved files need)."""
    if "SkyMapUser" not in globals():
        import lsst.pex.config as pexConfig
        from lsst.skymap import skyMapRegistry

        class SkyMapUser(pexConfig.Config):
            skyMap = skyMapRegistry.makeField(doc="sky map", default="dodeca")
        SkyMapUser.__qualname__ = "SkyMapUser"
        globals()["SkyMapUser"] = SkyMapUser
    return globals()["SkyMapUser"]


def ways_unit(R, rng, d):
    """The same map by every way of building it."""
    import pickle
    from lsst.skymap import skyMapRegistry
    R("begin")
    m0 = cmap(R, 0, d)
    if m0 is None:
        return
    cls = d["cls"]
    klass = skyMapRegistry[cls]

    def report(way, f):
        def go():
            m = f()
            return dict(eq=obs.eq(m, m0) and obs.eq(m0, m) and type(m) is type(m0) and len(m) == len(m0), sha=m.getSha1().hex(),
                        opts=read_opts(m.config, cls))
        err, v = call(go, limit=60)
        R("way", way=way, k=0, cls=cls, err=err, **(v or dict(eq=False, sha="", opts={})))

    def fill(c):
        if "tb" in d:
            c.tractBuilder.name = d["tb"]
        for k, v in d.get("sub", {}).items():
            setattr(c.tractBuilder[d.get("tb", "legacy")], k, v)
        for k, v in d.get("top", {}).items():
            setattr(c, k, v)
        return c
    ver = {"version": d["version"]} if "version" in d else {}
    Parent = parent()

    def direct():
        import lsst.skymap.dodecaSkyMap as a, lsst.skymap.equatSkyMap as b, lsst.skymap.discreteSkyMap as c  # noqa: E401
        import lsst.skymap.ringsSkyMap as e, lsst.skymap.healpixSkyMap as f  # noqa: E401
        k = dict(dodeca=a.DodecaSkyMap, equat=b.EquatSkyMap, discrete=c.DiscreteSkyMap, rings=e.RingsSkyMap, healpix=f.HealpixSkyMap)[cls]
        kc = dict(dodeca=a.DodecaSkyMapConfig, equat=b.EquatSkyMapConfig, discrete=c.DiscreteSkyMapConfig, rings=e.RingsSkyMapConfig,
                  healpix=f.HealpixSkyMapConfig)[cls]
        return k(fill(kc()), **ver)

    def field(reload):
        p = Parent()
        p.skyMap.name = cls
        fill(p.skyMap[cls])
        p.validate()
        if reload:
            with tempfile.TemporaryDirectory() as tmp:
                f = os.path.join(tmp, "config.py")
                p.save(f)
                q = Parent()
                q.load(f)
            p = q
        return p.skyMap.apply(**ver)

    def saved():
        c = fill(klass.ConfigClass())
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "config.py")
            c.save(f)
            q = klass.ConfigClass()
            q.load(f)
        return klass(q, **ver)

    def stream():
        b = io.StringIO()
        m0.config.saveToStream(b)
        q = klass.ConfigClass()
        q.loadFromString(b.getvalue())
        return klass(q, **ver)

    def kwargs():
        q = klass.ConfigClass()
        c = fill(klass.ConfigClass())
        q.update(**{k: v for k, v in c.toDict().items() if k != "tractBuilder"})
        q.tractBuilder.name = c.tractBuilder.name
        for b in ("legacy", "cells"):
            q.tractBuilder[b].update(**c.tractBuilder[b].toDict())
        return klass(q, **ver)
    report("direct", direct)
    report("registryField", lambda: field(False))
    report("savedField", lambda: field(True))
    report("saved", saved)
    report("savedStream", stream)
    report("updated", kwargs)
    report("pickledConfig", lambda: klass(pickle.loads(pickle.dumps(m0.config)), **ver))


def suite_config(seed, tier, cases):
    rng = rng_for(seed, "config")
    units = [("defaults", defaults_unit, ())]
    units += [("valid %d" % i, valid_unit, (6,)) for i in range(1 if tier == "quick" else 10)]
    units += [("short %d" % i, short_unit, (12,)) for i in range(3 if tier == "quick" else 20)]
    for cls in ("dodeca", "equat", "discrete", "rings", "healpix"):
        for r in range(4 if tier == "quick" else 20):
            d = confs.rand_desc(rng, cls=cls, maxpatch=3)
            if confs.ntracts(d) < 500:
                units.append(("ways %s %d" % (cls, r), ways_unit, (d,)))
        units.append(("ways default %s" % cls, ways_unit, (dict(cls=cls, top={} if cls != "rings" else dict(numRings=5)),)))
    return units
