"""Scenarios about the hash of a configuration (C31)."""
import json
import math
import os
import pickle
import struct
import subprocess
import tempfile

from common import *  # noqa: F401,F403
from common import geom
import confs

D = lambda v: list(struct.pack("<d", float(v)))  # noqa: E731


def layout(d):
    """The configuration as spec/HashLayout.tla wants it (floats as their bytes)."""
    top, tb, sub = confs.full(d)
    if tb == "legacy":
        ints = list(sub["patchInnerDimensions"]) + [sub["patchBorder"]]
    else:
        ints = list(sub["cellInnerDimensions"]) + [sub["cellBorder"], sub["numCellsPerPatchInner"], sub["numCellsInPatchBorder"]]
    n, fl, flag, cls = 0, [], False, d["cls"]
    if cls == "dodeca":
        flag = top["withTractsOnPoles"]
    elif cls == "equat":
        n, fl = top["numTracts"], top["decRange"]
    elif cls == "discrete":
        fl = top["raList"] + top["decList"] + top["radiusList"]
    elif cls == "rings":
        n, fl = top["numRings"], [top["raStart"]]
    else:
        n, flag = top["log2NSide"], top["nest"]
    return dict(cls=cls, ints=ints, overlap=D(top["tractOverlap"]), scale=D(top["pixelScale"]), proj=[ord(c) for c in top["projection"]],
                rotation=D(top["rotation"]), n=n, floats=[D(v) for v in fl], flag=flag)


def sha_of(m):
    s = m.getSha1()
    return list(s) if isinstance(s, bytes) else [BAD]


def use(rng, m):
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        p = sp(rng.uniform(0, 360), rng.uniform(-89, 89))
        if r < 0.3 and len(m):
            t = m[rng.randrange(len(m))]
            t.getNumPatches(), t[0].getOuterBBox(), t.getWcs()
        elif r < 0.5 and len(m):
            m.findTract(p)
        elif r < 0.6:
            hash(m)
        elif r < 0.7:
            m == m, len(m), repr(m)
        elif r < 0.8 and len(m):
            m.findTractPatchList([p])
        else:
            sum(1 for _ in zip(m, range(3)))


def from_file(d, m):
    """The map of a configuration that was written to a file and read back."""
    from lsst.skymap import skyMapRegistry
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "c.py")
        m.config.save(f)
        c = skyMapRegistry[d["cls"]].ConfigClass()
        c.load(f)
    return skyMapRegistry[d["cls"]](c)


CHILD = "import sys; sys.path.insert(0, %r); import common, pickle, lsst.skymap; " \
        "print([list(m.getSha1()) for m in pickle.load(open(%r, 'rb'))])"


def elsewhere(ms):
    """The hashes another process (with another hash seed) gets from a pickle."""
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "p")
        with open(f, "wb") as g:
            pickle.dump(ms, g)
        env = dict(os.environ, PYTHONHASHSEED="77")
        o = subprocess.run([sys.executable, "-B", "-c", CHILD % (HERE, f)], stdout=subprocess.PIPE, timeout=60, env=env, check=True)
        return eval(o.stdout.decode().strip().splitlines()[-1])


def vary(rng, d):
    """Configurations further out: any numbers of their types will do, the map need not be usable."""
    top, tb, sub = confs.full(d)
    t, s = d["top"], d["sub"]
    for _ in range(rng.randint(1, 4)):
        r = rng.randrange(8)
        if r == 0:
            t["rotation"] = rng.choice([0.0, -0.0, 1e-12, -359.999, 45.0, 720.5, math.pi, -1e-300, rng.uniform(-360, 360)])
        elif r == 1:
            t["tractOverlap"] = rng.choice([0.0, -0.0, 1.0/60, 1.0/3, 5e-324, rng.uniform(0, 9)])
        elif r == 2:
            t["pixelScale"] = rng.choice([0.168, 0.2, 1.0/3, rng.uniform(0.05, 900), top["pixelScale"]*(1 + 2**-52)])
        elif r == 3:
            t["projection"] = rng.choice(confs.ZEN + confs.CYL + ["SIN", "TSC", "XYZ", "tan"])
        elif tb == "legacy" and r in (4, 5):
            s["patchInnerDimensions"] = [rng.choice([1, 255, 256, 4000, 65535, 65536, 16777216, rng.randint(1, 2**31 - 1)]) for _ in "xy"]
        elif tb == "legacy":
            s["patchBorder"] = rng.choice([0, 1, 127, 128, 255, 256, 70000, rng.randint(0, 2**31 - 1)])
        elif r == 4:
            s["cellInnerDimensions"] = [rng.choice([1, 150, 257, rng.randint(1, 10**6)]) for _ in "xy"]
        elif r == 5:
            s["cellBorder"] = rng.choice([0, 50, 300, rng.randint(0, 10**5)])
        elif r == 6:
            s["numCellsPerPatchInner"] = rng.choice([1, 20, 255, 256, 1000])
        else:
            s["numCellsInPatchBorder"] = rng.choice([0, 1, 2, 20])
    c = d["cls"]
    if c == "discrete" and rng.random() < 0.3:
        n = rng.choice([0, 1, 30])
        for k, hi in (("raList", 360), ("decList", 90), ("radiusList", 20)):
            t[k] = [rng.uniform(0 if k != "decList" else -90, hi) for _ in range(n)]
    if c == "discrete" and t["raList"] and rng.random() < 0.6:
        i = rng.randrange(len(t["raList"]))
        t["raList"][i] = rng.choice([0.0, -0.0, -0.25, 360.0, 359.9999999, 720.0, -1e-9, 180.0])
        t["decList"][i] = rng.choice([-90.0, 90.0, 0.0, -0.0, -1e-12])
        t["radiusList"][i] = rng.choice([1e-6, 1.0/3, 45.0, t["radiusList"][i]])
    if c == "rings" and rng.random() < 0.5:
        t["raStart"] = rng.choice([0.0, -0.0, 359.999999, rng.uniform(0, 360), 1e-9])
        t["numRings"] = rng.choice([1, 2, 3, 30, 120])
    if c == "equat" and rng.random() < 0.5:
        t["numTracts"] = rng.choice([1, 4, 64, 255, 256, 300])
        t["decRange"] = [rng.uniform(-80, 0), rng.uniform(0, 80)]
    if c == "healpix" and rng.random() < 0.5:
        t["log2NSide"], t["nest"] = rng.choice([0, 1, 5, 8]), rng.random() < 0.5
    return d


def u_conf(R, rng, descs):
    maps = []
    for i, d in enumerate(descs):
        k = "c%d" % i
        err, m = call(confs.build, d)
        if err:       # (a configuration the map refuses: judged by C27, not here)
            continue
        R("conf", c=k, o=layout(d))
        if rng.random() < 0.5:
            err, _ = call(use, rng, m)
        ways = [("hash", lambda: sha_of(m)), ("pickle", lambda: sha_of(pickle.loads(pickle.dumps(m, rng.choice([2, 4, 5]))))),
                ("file", lambda: sha_of(from_file(d, m))), ("again", lambda: sha_of(confs.build(d)))]
        for how, f in [ways[0]] + [w for w in ways[1:] if rng.random() < 0.4]:
            err, s = call(f)
            R("sha", c=k, how=how, err=err, sha=s or [])
        maps.append((k, m))
    if maps and rng.random() < 0.5:
        err, out = call(elsewhere, [m for _, m in maps], limit=90)
        for i, (k, _) in enumerate(maps):
            R("sha", c=k, how="process", err=err, sha=out[i] if out else [])


def suite_layout(seed, tier, cases):
    rng = rng_for(seed, "hash")
    ds = [json.loads(json.dumps(d)) for d in confs.FIXED]
    for c in ("dodeca", "equat", "discrete", "rings", "healpix"):
        for tb in ("legacy", "cells"):
            if c != "rings" and c != "discrete":
                ds.append(dict(cls=c, tb=tb))        # all defaults
    for i in range(500 if tier == "thorough" else 110):
        d = confs.rand_desc(rng, cls=["dodeca", "equat", "discrete", "rings", "healpix"][i % 5])
        d.setdefault("sub", {})
        ds.append(vary(rng, d) if rng.random() < 0.75 else d)
    return [("conf/%d" % i, u_conf, (ds[i::24],)) for i in range(24)]
