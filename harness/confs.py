"""Configurations of sky maps: plain descriptions, and how to build them.

A description is a dict
  cls   : dodeca | equat | discrete | rings | healpix
  tb    : legacy | cells
  top   : options of the map config
  sub   : options of the tract builder config
  version : (rings) 0 or 1
Expected values are always computed from the description, never from the map.
"""
import math

from common import *  # noqa: F401,F403
from common import geom

DEFAULTS = {  # documented defaults
    "top": dict(tractOverlap=1.0, pixelScale=0.333, projection="STG", rotation=0.0),
    "legacy": dict(patchInnerDimensions=[4000, 4000], patchBorder=100),
    "cells": dict(cellInnerDimensions=[150, 150], cellBorder=50, numCellsPerPatchInner=20,
                  numCellsInPatchBorder=1),
    "dodeca": dict(withTractsOnPoles=False),
    "equat": dict(numTracts=4, decRange=[-1.25, 1.25]),
    "discrete": dict(raList=[], decList=[], radiusList=[]),
    "rings": dict(raStart=0.0),
    "healpix": dict(log2NSide=0, nest=False),
}
# what setDefaults of the classes changes
CLASSDEF = {
    "dodeca": (dict(tractOverlap=3.5, pixelScale=0.2, projection="STG"),
               dict(patchBorder=250, patchInnerDimensions=[4000, 4000])),
    "equat": (dict(projection="CEA"), {}),
    "healpix": (dict(rotation=45.0), {}),
    "discrete": ({}, {}),
    "rings": ({}, {}),
}


def full(d):
    """All options of a description, defaults included."""
    top = dict(DEFAULTS["top"])
    top.update(DEFAULTS[d["cls"]])
    top.update(CLASSDEF[d["cls"]][0])
    top.update(d.get("top", {}))
    tb = d.get("tb", "legacy")
    sub = dict(DEFAULTS[tb])
    if tb == "legacy":
        sub.update(CLASSDEF[d["cls"]][1])
    sub.update(d.get("sub", {}))
    return top, tb, sub


def grid_conf(d):
    """The patch grid options as the specification wants them."""
    top, tb, sub = full(d)
    if tb == "legacy":
        return dict(kind="legacy", dx=sub["patchInnerDimensions"][0], dy=sub["patchInnerDimensions"][1],
                    pb=sub["patchBorder"], cw=0, ch=0, cb=0, nci=0, ncb=0)
    return dict(kind="cells", dx=0, dy=0, pb=0, cw=sub["cellInnerDimensions"][0],
                ch=sub["cellInnerDimensions"][1], cb=sub["cellBorder"],
                nci=sub["numCellsPerPatchInner"], ncb=sub["numCellsInPatchBorder"])


def inner_dims(d):
    g = grid_conf(d)
    return (g["dx"], g["dy"]) if g["kind"] == "legacy" else (g["cw"]*g["nci"], g["ch"]*g["nci"])


def config(d, sub=False):
    """The configuration (sub: of a subclass of the configuration class)."""
    from lsst.skymap import skyMapRegistry
    if sub:
        import subconfs
        c = subconfs.SUB[d["cls"]]()
    else:
        c = skyMapRegistry[d["cls"]].ConfigClass()
    if "tb" in d:
        c.tractBuilder.name = d["tb"]
    for k, v in d.get("sub", {}).items():
        setattr(c.tractBuilder[d.get("tb", "legacy")], k, v)
    for k, v in d.get("top", {}).items():
        setattr(c, k, v)
    return c


def build(d):
    from lsst.skymap import skyMapRegistry
    cls = skyMapRegistry[d["cls"]]
    if "version" in d:
        return cls(config(d), version=d["version"])
    return cls(config(d))


def ntracts(d):
    top = full(d)[0]
    if d["cls"] == "dodeca":
        return 12
    if d["cls"] == "equat":
        return top["numTracts"]
    if d["cls"] == "discrete":
        return len(top["raList"])
    if d["cls"] == "healpix":
        return 12*4**top["log2NSide"]
    return sum(ringnums(top["numRings"])) + 2


def ringsize(n):
    return math.pi/(n + 1)


def ringnums(n):
    """Tracts per ring, by exact-ish arithmetic of the documented rule."""
    s = 180.0/(n + 1)
    out = []
    for r in range(n):
        lo, hi = -90 + s*(r + 0.5), -90 + s*(r + 1.5)
        d = 0.0 if lo < 0 < hi and False else min(abs(lo), abs(hi))
        v = 360*math.cos(math.radians(d))/s
        out.append(int(math.floor(v)) + 1)
    return out


# ------------------------------------------------------------------ generators
ZEN = ["TAN", "STG", "ARC", "ZEA"]
CYL = ["CEA", "CAR", "SFL", "MOL", "AIT", "MER"]


def rand_tb(rng, small=True, big=False):
    """-> (name, sub): tract builder options."""
    if rng.random() < 0.55:
        hi = rng.choice([12, 40, 150]) if not big else 4000
        dx, dy = rng.randint(max(2, hi//4), hi), rng.randint(max(2, hi//4), hi)
        if rng.random() < 0.25:
            dy = dx
        r = rng.random()
        b = 0 if r < 0.2 else (rng.randint(1, max(1, min(dx, dy)//3)) if r < 0.8 else rng.randint(dx, 3*dx))
        return "legacy", dict(patchInnerDimensions=[dx, dy], patchBorder=b)
    c = rng.randint(2, 14)
    nci = rng.choice([1, 2, 3, 4, 5, 8])
    ncb = rng.choice([0, 0, 1, 1, 2, 3])
    return "cells", dict(cellInnerDimensions=[c, c], cellBorder=rng.choice([0, 1, 2, 5]),
                         numCellsPerPatchInner=nci, numCellsInPatchBorder=ncb)


def scale_for(rng, widthDeg, tb, sub, maxpatch=7):
    """A pixel scale (arcsec) giving 1..maxpatch patches over widthDeg."""
    if tb == "legacy":
        inner = sum(sub["patchInnerDimensions"])/2
    else:
        inner = sub["cellInnerDimensions"][0]*sub["numCellsPerPatchInner"]
    n = rng.uniform(0.7, maxpatch)
    return round(widthDeg*3600/(n*inner), 3)


def rand_desc(rng, cls=None, maxpatch=7, zenithal=False, axis_rot=False, proj=None, overlap=None):
    cls = cls or rng.choice(["dodeca", "equat", "discrete", "rings", "healpix"])
    tb, sub = rand_tb(rng)
    top = {}
    rots = [0.0, 0.0, 90.0, 180.0, 270.0, -90.0]
    if not axis_rot:
        rots += [45.0, 30.0, 12.5, -77.0]
    top["rotation"] = rng.choice(rots)
    if cls == "dodeca":
        top["withTractsOnPoles"] = rng.random() < 0.5
        top["tractOverlap"] = overlap if overlap is not None else round(rng.choice([0.0, 3.5, rng.uniform(0, 12)]), 3)
        top["projection"] = rng.choice(["STG", "TAN", "ZEA", "ARC"])
        width = 80 + top["tractOverlap"]
    elif cls == "equat":
        n = rng.randint(3, 16)
        lo = round(rng.uniform(-12, 6), 3)
        hi = round(lo + rng.uniform(1, 10), 3)
        top["numTracts"] = n
        top["decRange"] = [lo, hi]
        top["tractOverlap"] = overlap if overlap is not None else round(rng.choice([0.0, 1.0, rng.uniform(0, 4)]), 3)
        top["projection"] = rng.choice(["CEA", "CEA", "CAR", "TAN", "MER", "STG"] if n > 4 else ["CEA", "CAR", "STG"])
        width = 360.0/n
    elif cls == "discrete":
        n = rng.randint(1, 7)
        top["raList"] = [round(rng.uniform(0, 360), 4) for _ in range(n)]
        top["decList"] = [round(math.degrees(math.asin(rng.uniform(-1, 1))), 4) for _ in range(n)]
        if rng.random() < 0.3:
            top["decList"][0] = rng.choice([-90.0, 90.0])
        if rng.random() < 0.3:
            top["raList"][-1] = rng.choice([0.0, 359.99, 360.0])
        r0 = 10**rng.uniform(-2, 1)
        top["radiusList"] = [round(r0*rng.uniform(0.5, 1.5), 5) for _ in range(n)]
        if n > 1 and rng.random() < 0.35:        # entries alike in some of the lists
            i, j = rng.sample(range(n), 2)
            for k in rng.sample(["raList", "decList", "radiusList"], rng.choice([1, 1, 2])):
                top[k][j] = top[k][i]
        top["tractOverlap"] = overlap if overlap is not None else round(rng.choice([0.0, r0*rng.uniform(0, 0.5)]), 5)
        top["projection"] = rng.choice(ZEN + ([] if zenithal else ["CEA", "CAR", "SFL"]))
        width = 2*r0
    elif cls == "rings":
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 13, 20])
        s = 180.0/(n + 1)
        top["numRings"] = n
        top["raStart"] = rng.choice([0.0, 0.0, round(rng.uniform(0, 359.99), 3)])
        top["tractOverlap"] = overlap if overlap is not None else round(rng.choice([s*0.1, s*rng.uniform(0.1, 0.3), 0.0]), 4)
        top["projection"] = rng.choice(ZEN)
        width = s*1.2
    else:
        k = rng.choice([0, 1, 1, 2, 2, 3])
        top["log2NSide"] = k
        top["nest"] = rng.random() < 0.5
        top["tractOverlap"] = overlap if overlap is not None else round(rng.choice([0.0, 1.0, rng.uniform(0, 3)]), 3)
        top["projection"] = rng.choice(["STG", "TAN", "ZEA", "ARC"] if k else ["STG", "ZEA", "ARC"])
        width = 82.0/2**k
    if proj:
        top["projection"] = proj
    top["pixelScale"] = scale_for(rng, width, tb, sub, maxpatch)
    d = dict(cls=cls, tb=tb, sub=sub, top=top)
    if cls == "rings":
        d["version"] = rng.choice([1, 1, 0])
    return d


def magnify(rng, d, f):
    """The same tracts in pixels f times as fine."""
    top, tb, sub = full(d)
    s = d["sub"] = dict(sub)
    if tb == "legacy":
        s["patchInnerDimensions"] = [int(v*f) + rng.randrange(99) for v in sub["patchInnerDimensions"]]
        s["patchBorder"] = rng.choice([sub["patchBorder"], int(sub["patchBorder"]*f)])
    else:
        s["cellInnerDimensions"] = [int(sub["cellInnerDimensions"][0]*f) + rng.randrange(99)]*2
        s["cellBorder"] = rng.choice([sub["cellBorder"], int(sub["cellBorder"]*f)])
    d["top"]["pixelScale"] = top["pixelScale"]/f
    return d


def wider(rng, d):
    """The same description with sizes further out."""
    t, tb, sub = d["top"], d["tb"], d["sub"]
    if d["cls"] == "healpix":
        k = t["log2NSide"] = rng.choice([4, 5, 6, 7, 8, 8, 10])
        t["tractOverlap"] = round(20.0/2**k, 4)
        t["pixelScale"] = scale_for(rng, 90.0/2**k, tb, sub, 3)
    elif d["cls"] == "equat":
        n = t["numTracts"] = rng.choice([1, 2, 3, 24, 50, 97, 100, 180])
        t["projection"] = rng.choice(["CEA", "CAR"])
        lo = round(rng.uniform(-60, 50), 3)
        t["decRange"] = [lo, round(lo + rng.uniform(0.1, 30), 3)]
        t["tractOverlap"] = round(rng.uniform(0, 30.0/n), 4)
        t["pixelScale"] = scale_for(rng, 360.0/n, tb, sub, 3)
    elif d["cls"] == "discrete":
        n = rng.randint(20, 100)
        t["raList"] = [round(rng.uniform(0, 360), 4) for _ in range(n)]
        t["decList"] = [round(math.degrees(math.asin(rng.uniform(-1, 1))), 4) for _ in range(n)]
        t["radiusList"] = [t["radiusList"][0]]*n
    return d


FIXED = [  # close to configurations used in practice
    dict(cls="rings", tb="legacy", version=1,
         top=dict(numRings=120, projection="TAN", tractOverlap=1.0/60, pixelScale=0.168),
         sub=dict(patchInnerDimensions=[4000, 4000], patchBorder=100)),
    dict(cls="rings", tb="cells", version=1,
         top=dict(numRings=120, projection="TAN", tractOverlap=1.0/60, pixelScale=0.2),
         sub=dict(cellInnerDimensions=[150, 150], cellBorder=50, numCellsPerPatchInner=20, numCellsInPatchBorder=1)),
    dict(cls="rings", tb="legacy", version=0,
         top=dict(numRings=120, projection="TAN", tractOverlap=1.0/60, pixelScale=0.168),
         sub=dict(patchInnerDimensions=[4000, 4200], patchBorder=100)),
    dict(cls="dodeca"),
    dict(cls="equat"),
    dict(cls="healpix", top=dict(log2NSide=3)),
    dict(cls="discrete", top=dict(raList=[0.0, 90.0, 359.5], decList=[0.0, -45.0, 60.0], radiusList=[0.5, 1.5, 2.0])),
    dict(cls="discrete", tb="cells", top=dict(raList=[150.1], decList=[2.2], radiusList=[0.9], projection="TAN",
                                              tractOverlap=0.0, pixelScale=0.2),
         sub=dict(cellInnerDimensions=[150, 150], cellBorder=50, numCellsPerPatchInner=10, numCellsInPatchBorder=2)),
]


def key(d):
    import json
    return json.dumps(d, sort_keys=True)
