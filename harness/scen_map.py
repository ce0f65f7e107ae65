"""Scenarios about whole sky maps (spec/TraceMap.tla)."""
import logging
import math
import re

from common import *  # noqa: F401,F403
from common import geom, np
import confs
import obs

TURN = 1000000000
Q = TURN//4
RAD = 2*math.pi/TURN


def pos(lon, lat):
    """A sky position at whole nano-turns."""
    return sp(lon*RAD, lat*RAD, geom.radians)


def rand_nt(rng):
    return (rng.randrange(TURN), int(round(math.asin(rng.uniform(-1, 1))*NT)))


def deg_nt(x):
    return int(round(x/360.0*TURN))


def clip(p):
    return (p[0] % TURN, max(-Q, min(Q, p[1])))


# ------------------------------------------------------------------ bindings
def cap_counts(m, n, ver):
    """Tracts per ring as getRingIndices numbers them."""
    c = [0]*n
    for i in range(len(m)):
        r = m.getRingIndices(i)[0]
        if 0 <= r < n:
            c[r] += 1
    if ver == 0 and n > 1:
        c[0] -= 1
        c[-1] += 1
    return c


def double_counts(n):
    """The rule in double precision, which decides where the length of a ring is a whole number."""
    s = math.pi/(n + 1)
    out = []
    for i in range(n):
        a = s*(i + 0.5) - 0.5*math.pi
        out.append(int(2*math.pi*math.cos(min(abs(a), abs(a + s)))/s) + 1)
    return out


def rmap(R, k, m, d):
    top = confs.full(d)[0]
    n = top["numRings"]
    e, c = call(cap_counts, m, n, d["version"], limit=100)
    if e:
        R("crash", where="ring counts", ex=e[0], loc="")
        return None
    R("rmap", k=k, n=n, ver=d["version"], ra0=deg_nt(top["raStart"]) % TURN, len=I(len(m)), counts=IL(c),
      ref=double_counts(n))
    return c


def bindmap(R, k, m, d):
    """Announces a map to the specification."""
    top = confs.full(d)[0]
    if d["cls"] == "rings":
        return rmap(R, k, m, d)
    if d["cls"] == "equat":
        R("emap", k=k, num=top["numTracts"], dec0=deg_nt(top["decRange"][0]), dec1=deg_nt(top["decRange"][1]), len=I(len(m)))
    elif d["cls"] == "discrete":
        R("dmap", k=k, ras=[deg_nt(v) % TURN for v in top["raList"]], decs=[deg_nt(v) for v in top["decList"]], len=I(len(m)))
    elif d["cls"] == "healpix":
        R("hmap", k=k, ns=2**top["log2NSide"], nest=bool(top["nest"]), len=I(len(m)))
    else:
        dodec(R, k, top["withTractsOnPoles"])
    return True


def same_vec(a, b):
    return all(float(a[i]) == float(b[i]) for i in range(3))


def dodec(R, k, poles, how=0):
    from lsst.skymap import detail
    if how == 0:
        D = detail.Dodecahedron(withFacesOnPoles=poles)
    elif how == 1:
        D = detail.Dodecahedron(poles)
    elif how == 2:
        D = detail.Dodecahedron(int(poles))
    else:
        D = detail.Dodecahedron(True) if poles else detail.Dodecahedron()
    return dodec_facts(R, k, D, poles)


def dodec_facts(R, k, D, poles, rng=None, op="dodec"):
    """Everything a dodecahedron says, asked for face by face in any order."""
    order = list(range(12))
    if rng:
        rng.shuffle(order)
    got = {}
    for i in order:
        got[i] = uvec(D.getFaceCtr(i)), [uvec(v) for v in D.getVertices(i)]
    faces = [got[i][0] for i in range(12)]
    verts = [got[i][1] for i in range(12)]
    fl = D.getFaceCtrList()
    forms = len(fl) == 12 and all(same_vec(fl[i], D.getFaceCtr(i)) for i in range(12))
    forms = forms and bool(D.getWithFacesOnPoles()) == bool(poles)
    # a changed copy changes nothing
    first = [float(x) for x in fl[0]]
    fl[0] = fl[1]
    fl.reverse()
    fl.pop()
    forms = forms and [float(x) for x in D.getFaceCtr(0)] == first and len(D.getFaceCtrList()) == 12
    forms = forms and int(D.getFaceInd(np.array(first))) == 0
    q = 3 if rng is None else rng.randrange(12)
    vl = D.getVertices(q)
    try:
        vl.reverse()
        vl.pop()
    except AttributeError:
        pass
    forms = forms and [uvec(v) for v in D.getVertices(q)] == verts[q]
    R(op, k=k, poles=bool(poles), faces=faces, verts=verts, forms=bool(forms))
    return D


tid = obs.tid


# ------------------------------------------------------------------- positions
def edge_positions(rng, d, counts, n):
    """Positions of interest for a map, in nano-turns."""
    out = []
    top = confs.full(d)[0]
    for _ in range(n):
        p = rand_nt(rng)
        u = rng.random()
        eps = rng.choice([0, 8, 20, 100, 3000])*rng.choice([-1, 1])
        if u < 0.3:
            pass
        elif u < 0.36:
            p = (p[0], rng.choice([-Q, Q, -Q + 10, Q - 10, 0]))
        elif u < 0.42:
            p = (rng.choice([0, TURN - 1, TURN//2, 1]), p[1])
        elif d["cls"] == "rings":
            N = top["numRings"]
            r = rng.randrange(N)
            ra0 = deg_nt(top["raStart"])
            if u < 0.6:       # declination edges
                h = rng.choice([1, 2*N + 1, 2*r + 1, 2*r + 3])
                p = (p[0], h*(TURN//2)//(2*(N + 1)) - Q + eps)
            else:             # right ascension edges of a ring
                c = counts[r] if counts else 4
                j = rng.choice([0, 0, c - 1, rng.randrange(c)])
                lat = (2*r + 1 + rng.uniform(0.02, 1.98))*(TURN//2)/(2*(N + 1)) - Q
                p = ((ra0 + (2*j + rng.choice([-1, 1, 0]))*TURN//(2*c) + eps) % TURN, int(lat))
        elif d["cls"] == "equat":
            num = top["numTracts"]
            p = ((rng.randint(0, num)*TURN//num + eps) % TURN, p[1] if u < 0.7 else
                 deg_nt(rng.uniform(*top["decRange"])))
        elif d["cls"] == "discrete":
            i = rng.randrange(len(top["raList"]))
            j = rng.randrange(len(top["raList"]))
            f = rng.choice([0.0, 0.45, 0.48, 0.499, 0.5, 0.501, 0.52, 0.55, rng.random()])
            a = pos(deg_nt(top["raList"][i]), deg_nt(top["decList"][i])).getVector()
            b = pos(deg_nt(top["raList"][j]), deg_nt(top["decList"][j])).getVector()
            v = [a[x]*(1 - f) + b[x]*f for x in range(3)]
            if sum(x*x for x in v) > 1e-6:
                p = (int(math.atan2(v[1], v[0])*NT) + eps, int(math.atan2(v[2], math.hypot(v[0], v[1]))*NT))
        elif d["cls"] == "healpix":
            ns = 2**top["log2NSide"]
            if u < 0.7:
                p = (rng.randrange(8*ns)*TURN//(8*ns) + eps, p[1])
            else:
                z = rng.choice([2/3, -2/3] + [x*2/(3*ns) for x in range(-ns, ns + 1)]) + rng.choice([-1, 1])*1e-4
                p = (p[0], int(math.asin(max(-1, min(1, z)))*NT))
        else:
            p = (rng.randrange(10)*TURN//10 + eps, p[1])
        out.append(clip(p))
    return out


# ---------------------------------------------------------------- C10, C11 rings
def u_rings(R, rng, d, nidx, ntr, npos):
    m = confs.build(d)
    counts = rmap(R, "m", m, d)
    if counts is None:
        return
    n = len(m)
    bounds = [0, 1]
    for c in counts:
        bounds.append(bounds[-1] + c)
    ids = {0, 1, 2, n - 1, n - 2, n - 3}
    for b in rng.sample(bounds, min(len(bounds), 8)) + bounds[1:3] + bounds[-2:]:
        ids |= {b - 2, b - 1, b, b + 1}
    ids = {i for i in ids if 0 <= i < n}
    more = set(range(n)) if n <= nidx else ids | {rng.randrange(n) for _ in range(nidx)}
    for i in sorted(more) + [-1, -2, -n, n, n + 1, n + 7, 10**7, -10**7]:
        e, v = call(m.getRingIndices, i)
        R("ridx", k="m", i=i, err=e, res=IL(v, 2) if not e else [])
    # every tract when there are few
    ids = list(range(n)) if n <= ntr else sorted(ids)[:ntr] if len(ids) > ntr else sorted(ids | {rng.randrange(n) for _ in range(ntr - len(ids))})
    for i in rng.sample(sorted(ids), len(ids)):
        with guard(R, "tract %d" % i):
            t = m[i]
            re_, rg = call(m.getRaDecRange, i)
            rng_ = [angnt(v) for v in rg] if not re_ else [BAD]*4
            ge, reg = call(t.getInnerSkyRegion)
            region, ctr = [BAD]*4, False
            if not ge:
                try:
                    lo, la = reg.getLon(), reg.getLat()
                    region = [nt(lo.getA().asRadians()), nt(lo.getB().asRadians()), nt(la.getA().asRadians()),
                              nt(la.getB().asRadians())]
                    if lo.isFull():
                        region[:2] = [0, TURN]
                    ctr = bool(reg.contains(t.getCtrCoord().getVector()))
                except Exception:
                    pass
            R("rtract", k="m", i=i, id=tid(t), ctr=lonlat(t.getCtrCoord()), rng=rng_, rngErr=re_, reg=region, regErr=ge, regctr=ctr)
    for p in edge_positions(rng, d, counts, npos):
        e, t = call(m.findTract, pos(*p))
        R("rfind", k="m", pos=list(p), err=e, id=tid(t) if not e else BAD)


def ring_descs(rng, n):
    out = []
    for j in range(n):
        d = confs.rand_desc(rng, cls="rings", maxpatch=3)
        d["top"]["numRings"] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 25])
        N = d["top"]["numRings"]
        d["top"]["raStart"] = rng.choice([0.0, 359.999, 180.0, round(rng.uniform(0, 360) % 360, 4), round(rng.uniform(0, 360) % 360, 4)])
        d["version"] = rng.choice([0, 1, 1])
        d["top"]["tractOverlap"] = round(180/(N + 1)*rng.choice([0.0, 0.1, 0.2]), 4)
        tb, sub = d["tb"], d["sub"]
        d["top"]["pixelScale"] = confs.scale_for(rng, 220/(N + 1), tb, sub, 2.5)
        if N == 1 and d["top"]["projection"] == "TAN":
            d["top"]["projection"] = "STG"
        out.append(d)
    return out


def many_rings(rng, n):
    """Maps of many rings."""
    out = []
    for j, d in enumerate(ring_descs(rng, n)):
        N = d["top"]["numRings"] = rng.choice([299, 310, 320] if j == 0 else [30, 37, 48, 60, 77, 90, 99, 119, 121, 144, 180, 200, 255, 256, 299])
        d["top"]["tractOverlap"] = round(18.0/(N + 1), 4)
        d["top"]["pixelScale"] = confs.scale_for(rng, 220/(N + 1), d["tb"], d["sub"], 2.5)
        out.append(d)
    return out


def suite_rings(seed, tier, cases):
    rng = rng_for(seed, "rings")
    ds = ring_descs(rng, 40 if tier == "quick" else 400) + many_rings(rng, 6 if tier == "quick" else 60)
    for d in confs.FIXED:
        if d["cls"] == "rings":
            ds.append(d)
    return [("rings " + confs.key(d), u_rings, (d, 120 if tier == "quick" else 1500, 60 if tier == "quick" else 400,
                                                80 if tier == "quick" else 400)) for d in ds]


# ---------------------------------------------------------------- C12 arrays
def settled(m, p):
    """The tract found does not change right next to a position."""
    try:
        return len({tid(m.findTract(pos(*clip((p[0] + a, p[1] + b))))) for a, b in ((0, 0), (5, 5), (-5, 5), (5, -5), (-5, -5))}) == 1
    except Exception:
        return True


def u_arr(R, rng, d, nq):
    m = confs.build(d)
    counts = bindmap(R, "m", m, d)
    for q in range(nq):
        n = rng.choice([0, 1, 1, 2, 3, 10, 40])
        ps = edge_positions(rng, d, counts, n)
        u = rng.random()
        if u < 0.12:            # all in a place of one kind
            lat = rng.choice([[Q], [-Q], [Q, -Q], [0], [Q - 3, Q], [-Q, -Q + 3], [p[1] for p in ps[:1]] or [0]])
            ps = [(p[0], rng.choice(lat)) for p in ps]
        elif u < 0.2 and ps:
            lon = rng.choice([0, TURN//2, ps[0][0]])
            ps = [(lon, p[1]) for p in ps]
        elif u < 0.25 and ps:
            ps = [rng.choice(ps[:2])]*len(ps)
        if d["cls"] != "rings":     # away from places where two answers are right
            ps = [p for p in ps if settled(m, p)]
            n = len(ps)
        deg = rng.random() < 0.5
        unit = 360.0/TURN if deg else RAD
        wraps = [rng.choice([0, 0, -1, 1, 2, -3]) for _ in ps]
        ra = np.array([(p[0] + w*TURN)*unit for p, w in zip(ps, wraps)], dtype=float)
        dec = np.array([p[1]*unit for p in ps], dtype=float)
        dec = np.clip(dec, -90.0 if deg else -math.pi/2, 90.0 if deg else math.pi/2)
        form = rng.choice(["array", "array", "strided", "readonly", "scalar" if n == 1 else "array", "np0" if n == 1 else "array"])
        a, b = ra, dec
        if form == "strided":
            a, b = np.repeat(ra, 2)[::2], np.repeat(dec, 3)[::3]
        elif form == "readonly":
            a, b = ra.copy(), dec.copy()
            a.flags.writeable = b.flags.writeable = False
        elif form == "scalar":
            a, b = float(ra[0]), float(dec[0])
        elif form == "np0":
            a, b = np.float64(ra[0]), np.float64(dec[0])
        a0, b0 = np.array(a, copy=True), np.array(b, copy=True)
        if deg:
            e, ids = call(m.findTractIdArray, a, b, degrees=True) if rng.random() < 0.7 else call(m.findTractIdArray, a, b, True)
        else:
            e, ids = call(m.findTractIdArray, a, b) if rng.random() < 0.7 else call(m.findTractIdArray, ra=a, dec=b, degrees=False)
        want = []
        for x, y in zip(ra, dec):
            full = 360.0 if deg else 2*math.pi
            we, t = call(m.findTract, sp(x % full, y, geom.degrees if deg else geom.radians))
            want.append(tid(t) if not we else BAD)
        same = np.array_equal(a0, np.asarray(a)) and np.array_equal(b0, np.asarray(b))
        R("arr", k="m", pos=[list(p) for p in ps], err=e, ids=IL(np.asarray(ids).ravel()) if not e else [], want=want, same=bool(same))
    # the same numbers in one unit and in the other
    for q in range(2):
        xs = [(rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 6.0, -1.0, rng.uniform(0, 6.28)]), rng.choice([0.0, 0.5, 1.0, -1.0, -1.5, 1.5, rng.uniform(-1.57, 1.57)]))
              for _ in range(rng.choice([1, 3, 20]))]
        ps = {deg: [(int(round(x/u)) % TURN, int(round(y/u))) for x, y in xs] for deg, u in ((True, 360.0/TURN), (False, RAD))}
        xs = [x for i, x in enumerate(xs) if d["cls"] == "rings" or all(settled(m, ps[deg][i]) for deg in ps)]
        ra, dec = np.array([x for x, _ in xs]), np.array([y for _, y in xs])
        for deg in rng.choice([(True, False, True), (False, True, False)]):
            u = geom.degrees if deg else geom.radians
            e, ids = call(m.findTractIdArray, ra, dec, deg)
            want = []
            for x, y in xs:
                we, t = call(m.findTract, sp(x % (360.0 if deg else 2*math.pi), y, u))
                want.append(tid(t) if not we else BAD)
            R("arr", k="m", pos=[[int(round(x/(360.0/TURN if deg else RAD))) % TURN, int(round(y/(360.0/TURN if deg else RAD)))] for x, y in xs],
              err=e, ids=IL(np.asarray(ids).ravel()) if not e else [], want=want, same=True)


LENGTHS = [127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 9999,
           10000, 10001, 16383, 16385, 32767, 32769, 50001, 65535, 65536, 65537, 99999, 100001, 131073]


def u_long(R, rng, d, lens):
    """Long arrays: the answers of a pool of positions, in any order."""
    m = confs.build(d)
    counts = bindmap(R, "m", m, d)
    ps = [p for p in edge_positions(rng, d, counts, 60) if settled(m, p)] or [(0, 0)]
    pool = []
    for p in ps:
        e, t = call(m.findTract, pos(*p))
        pool.append(tid(t) if not e else BAD)
        R("arr", k="m", pos=[list(p)], err=e, ids=[pool[-1]], want=[pool[-1]], same=True)
    pool = np.array(pool)
    pra, pdec = np.array([p[0]*RAD for p in ps]), np.array([p[1]*RAD for p in ps])
    for n in lens:
        if rng.random() < 0.5:
            ix = np.arange(n) % len(ps)
        else:
            ix = np.array(rng.choices(range(len(ps)), k=n))
        deg = rng.random() < 0.5
        ra, dec = pra[ix], pdec[ix]
        if deg:
            ra, dec = np.degrees(ra), np.degrees(dec)
        e, ids = call(m.findTractIdArray, ra, dec, deg, limit=200)
        wrong = []
        if not e:
            ids = np.asarray(ids).ravel()
            if len(ids) == n:
                wrong = [[int(j), I(ids[j]), I(pool[ix[j]])] for j in np.nonzero(ids != pool[ix])[0][:5]]
        R("long", k="m", n=n, err=e, got=0 if e else len(ids), wrong=wrong)


def suite_arr(seed, tier, cases):
    rng = rng_for(seed, "arr")
    ds = [confs.rand_desc(rng, maxpatch=3) for _ in range(40 if tier == "quick" else 500)]
    for d in ds:
        if rng.random() < 0.25:
            confs.wider(rng, d)
    ds += many_rings(rng, 4 if tier == "quick" else 40)
    ds += ring_descs(rng, 30 if tier == "quick" else 300)
    ds += [d for d in confs.FIXED if d["cls"] != "healpix" or True]
    out = [("arr " + confs.key(d), u_arr, (d, 20)) for d in ds]
    for j, d in enumerate(ring_descs(rng, 8 if tier == "quick" else 40)):
        out.append(("long %d" % j + confs.key(d), u_long, (d, LENGTHS[j % 4::4])))
    for j in range(6 if tier == "quick" else 40):       # one position after the other
        d = confs.rand_desc(rng, cls=["discrete", "equat"][j % 2], maxpatch=3)
        if j % 2:
            d["top"]["numTracts"] = rng.choice([2, 3])
            d["top"]["projection"] = "CAR"
        else:
            for k in ("raList", "decList", "radiusList"):
                d["top"][k] = d["top"][k][:2]
        out.append(("long %d" % j + confs.key(d), u_long, (d, rng.sample([n for n in LENGTHS if n < 2000], 3) + [rng.choice([4095, 4096, 4097, 5000])])))
    return out


# ---------------------------------------------------------------- C13 all tracts
def u_fat(R, rng, d, npos):
    m = confs.build(d)
    counts = rmap(R, "m", m, d)
    fresh = confs.build(d)       # the brute-force answers, from another instance
    ts = list(fresh)
    for p in fat_positions(rng, d, counts, npos):
        c = pos(*p)
        e, got = call(m.findAllTracts, c)
        ids = []
        if not e:
            try:
                ids = [tid(t) for t in got]
            except Exception as x:
                e = names(x)
        R("fat", k="m", pos=list(p), err=e, got=ids, all=[i for i, t in enumerate(ts) if t.contains(c)],
          own=tid(fresh.findTract(c)))


def fat_positions(rng, d, counts, n):
    top = confs.full(d)[0]
    N = top["numRings"]
    out = edge_positions(rng, d, counts, n)
    half = TURN/4/(N + 1)
    for _ in range(n):
        # around the reach of the caps and of each ring
        r = rng.choice([-1, 0, N - 1, N, rng.randint(-1, N)])
        dec = (2*r + 2)*half - Q
        off = (half + deg_nt(top["tractOverlap"]))*rng.uniform(0.8, 1.5)*rng.choice([-1, 1])
        out.append(clip((rng.randrange(TURN), int(dec + off))))
    return out


def suite_fat(seed, tier, cases):
    rng = rng_for(seed, "fat")
    ds = ring_descs(rng, 64 if tier == "quick" else 600)
    for d in ds:
        N = d["top"]["numRings"]
        s = 180/(N + 1)
        d["top"]["tractOverlap"] = round(rng.choice([0.0, 0.1*s, 0.3*s, 0.7*s, 1.5*s, 3*s, 4.5*s, 8*s]), 4)
        d["top"]["tractOverlap"] = min(d["top"]["tractOverlap"], rng.choice([60.0, 70.0]))
        if (s*(1 + 3) > 120 or s/2 + d["top"]["tractOverlap"] > 50) and d["top"]["projection"] in ("TAN",):
            d["top"]["projection"] = rng.choice(["STG", "ZEA"])
        d["top"]["rotation"] = rng.choice([0.0, 0.0, 90.0, 45.0, 20.0])
        tb, sub = d["tb"], d["sub"]
        d["top"]["pixelScale"] = confs.scale_for(rng, s*1.3 + 2*d["top"]["tractOverlap"], tb, sub, rng.choice([1.2, 3, 10]))
    return [("fat " + confs.key(d), u_fat, (d, 30)) for d in ds]


# ---------------------------------------------------------------- C14 nearest
def u_find(R, rng, d, npos):
    m = confs.build(d)
    counts = bindmap(R, "m", m, d)
    top = confs.full(d)[0]
    cs = []
    if d["cls"] == "discrete":
        cs = [sp(a, b) for a, b in zip(top["raList"], top["decList"])]
    for p in edge_positions(rng, d, counts, npos):
        c = pos(*p)
        e, t = call(m.findTract, c)
        v = c.getVector()
        seps = []
        for x in cs:
            u = x.getVector()
            s = math.sqrt(sum((u[i] - v[i])**2 for i in range(3)))
            # the supplement near antipodes
            w = math.sqrt(sum((u[i] + v[i])**2 for i in range(3)))
            seps.append(nt(2*math.atan2(s, w)))
        R("find", k="m", pos=list(p), err=e, id=tid(t) if not e else BAD, seps=seps, fine=[])
    n = len(m)
    if d["cls"] == "healpix":
        for i in sorted({0, n - 1} | {rng.randrange(n) for _ in range(40)}):
            e, t = call(m.findTract, m[i].getCtrCoord())
            R("self", k="m", i=i, err=e, id=tid(t) if not e else BAD)


def u_close(R, rng, d, npos):
    """Centres (nearly) in one place: separations in pico-turns."""
    m = confs.build(d)
    bindmap(R, "m", m, d)
    top = confs.full(d)[0]
    cs = [sp(a, b).getVector() for a, b in zip(top["raList"], top["decList"])]
    for _ in range(npos):
        i, j = rng.randrange(len(cs)), rng.randrange(len(cs))
        f = rng.choice([0.0, 0.2, 0.45, 0.49, 0.51, 0.8, 1.0, 1.3, -3.0, 60.0])
        v = [cs[i][x]*(1 - f) + cs[j][x]*f + rng.choice([0, 0, 1e-7, 1e-9])*rng.gauss(0, 1) for x in range(3)]
        c = sp(math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1])), geom.radians)
        v = c.getVector()
        e, t = call(m.findTract, c)
        seps = []
        for u in cs:
            seps.append(2*math.asin(min(1.0, 0.5*math.sqrt(sum((u[x] - v[x])**2 for x in range(3))))))
        big = max(seps) > 2e-3*2*math.pi
        R("find", k="m", pos=[nt(c.getLongitude().asRadians()), nt(c.getLatitude().asRadians())], err=e, id=tid(t) if not e else BAD,
          seps=[nt(x) for x in seps], fine=[] if big else [int(round(x*NT*1000)) for x in seps])


def suite_find(seed, tier, cases):
    rng = rng_for(seed, "find")
    ds = [d for d in confs.FIXED if d["cls"] != "rings"]
    n = 90 if tier == "quick" else 1000
    while len(ds) < n:
        d = confs.rand_desc(rng, cls=rng.choice(["dodeca", "equat", "discrete", "discrete", "healpix", "healpix"]), maxpatch=3)
        if rng.random() < 0.3:
            confs.wider(rng, d)
        ds.append(d)
    for _ in range(24 if tier == "quick" else 240):       # tracts that overlap nearly wholly, and many of them
        d = confs.rand_desc(rng, cls="discrete", maxpatch=3)
        t = d["top"]
        k = rng.randint(2, 9)
        spread = rng.choice([0.001, 0.05, 0.5, 4.0])
        ra, dec = rng.uniform(0, 360), rng.choice([rng.uniform(-80, 80), 0.0])
        t["raList"] = [round((ra + rng.uniform(-1, 1)*spread/math.cos(math.radians(dec))) % 360, 6) for _ in range(k)]
        t["decList"] = [round(dec + rng.uniform(-1, 1)*spread, 6) for _ in range(k)]
        t["radiusList"] = [round(rng.uniform(0.1, 1.0), 3) for _ in range(k)]
        t["tractOverlap"] = rng.choice([0.0, 0.01, 1.0, 3.0])
        ds.append(d)
    out = [("find " + confs.key(d), u_find, (d, 50 if tier == "quick" else 150)) for d in ds]
    for _ in range(24 if tier == "quick" else 240):       # centres an arcsecond to a micro-arcsecond apart
        d = confs.rand_desc(rng, cls="discrete", maxpatch=3)
        t = d["top"]
        k = rng.randint(2, 6)
        spread = 10**rng.uniform(-8.5, -3.5)
        ra, dec = rng.uniform(1, 359), rng.choice([rng.uniform(-80, 80), 0.0])
        t["raList"] = [ra + rng.uniform(-1, 1)*spread/math.cos(math.radians(dec)) for _ in range(k)]
        t["decList"] = [dec + rng.uniform(-1, 1)*spread for _ in range(k)]
        t["radiusList"] = [round(rng.uniform(0.1, 1.0), 3) for _ in range(k)]
        out.append(("close " + confs.key(d), u_close, (d, 40)))
    return out


# ---------------------------------------------------------------- C17 searches
def plist_of(ps):
    return [I(p.getSequentialIndex()) for p in ps]


def pairs(res):
    return [[tid(t), plist_of(ps)] for t, ps in res]


def u_tpl(R, rng, d, nq):
    m = confs.build(d)
    counts = bindmap(R, "m", m, d)
    ref = confs.build(d)
    ts = list(ref)
    for q in range(nq):
        np_ = rng.choice([0, 1, 1, 2, 3, 4])
        if q == nq - 1 and rng.random() < 0.5:      # a long list
            np_ = rng.choice([65, 129, 205, 310])
        coords = []
        base = edge_positions(rng, d, counts, 1)[0]
        if d["cls"] in ("equat", "discrete") and rng.random() < 0.7:
            t = rng.choice(ts)
            bx = t.getBBox()
            for _ in range(np_):
                s = t.getWcs().pixelToSky(geom.Point2D(rng.uniform(-0.3, 1.3)*bx.getWidth(), rng.uniform(-0.3, 1.3)*bx.getHeight()))
                if math.isfinite(s.getLongitude().asRadians()):
                    coords.append(s)
        else:
            spread = rng.choice([1e5, 3e6, 3e7, 2e8])
            for j in range(np_):
                if rng.random() < (0.1 if np_ < 9 else 0.01):
                    coords.append(pos(*rand_nt(rng)))
                else:
                    coords.append(pos(*clip((int(base[0] + rng.uniform(-1, 1)*spread), int(base[1] + rng.uniform(-1, 1)*spread)))))
        if coords and rng.random() < 0.2:
            coords.append(coords[0])          # a position twice
        if coords and rng.random() < 0.25:    # the way back: tracts come up again later
            coords.append(coords[rng.randrange(len(coords))])
        with guard(R, "reference search"):
            per = [plist_of(t.findPatchList(coords)) for t in ts]
            con = [i for i, t in enumerate(ts) if any(t.contains(c) for c in coords)]
            ids = [tid(ref.findTract(c)) for c in coords]
            e, v = call(m.findTractPatchList, coords)
            got = pairs(v) if not e else []
            R("tpl", k="m", err=e, got=got, per=per, con=con)
            e, v = call(m.findClosestTractPatchList, coords)
            got = pairs(v) if not e else []
            R("ctpl", k="m", err=e, got=got, per=per, ids=ids)


def suite_tpl(seed, tier, cases):
    rng = rng_for(seed, "tpl")
    n = 90 if tier == "quick" else 1000
    ds = []
    while len(ds) < n:
        d = confs.rand_desc(rng, cls=rng.choice(["dodeca", "equat", "discrete", "rings", "rings", "healpix"]), maxpatch=4)
        if d["cls"] == "rings":
            d["top"]["numRings"] = rng.choice([2, 3, 4, 5])
            s = 180/(d["top"]["numRings"] + 1)
            d["top"]["tractOverlap"] = round(s*rng.choice([0, 0.1, 0.3]), 4)
            if d["top"]["projection"] == "TAN":
                d["top"]["projection"] = "STG"
            d["top"]["pixelScale"] = confs.scale_for(rng, s*1.3 + 2*d["top"]["tractOverlap"], d["tb"], d["sub"], 4)
        if d["cls"] == "healpix" and d["top"]["log2NSide"] > 1:
            d["top"]["log2NSide"] = 1
            d["top"]["pixelScale"] = confs.scale_for(rng, 41, d["tb"], d["sub"], 4)
        ds.append(d)
    return [("tpl " + confs.key(d), u_tpl, (d, 25)) for d in ds]


# ---------------------------------------------------------------- C20 dodecahedron
def u_dodec(R, rng, first, n):
    """Dodecahedra of both kinds, built and used in turn."""
    kinds = [first, not first] + [rng.random() < 0.5 for _ in range(2)]
    Ds = [dodec(R, "d%d" % j, p, rng.randrange(4)) for j, p in enumerate(kinds)]
    vs = []
    for D in Ds[:2]:
        for i in range(12):
            f = D.getFaceCtr(i)
            vs.append([float(x) for x in f])
            for v in D.getVertices(i):
                t = rng.choice([0.02, 1e-3, 1e-5])
                vs.append([float(a)*(1 - t) + float(b)*t for a, b in zip(v, f)])
    for _ in range(n):
        u = rng.random()
        D = rng.choice(Ds)
        if u < 0.45:
            v = [rng.gauss(0, 1) for _ in range(3)]
        elif u < 0.8:
            i, j = rng.sample(range(12), 2)
            t = rng.choice([0.5, rng.random(), 0.5 + rng.choice([-1, 1])*10**rng.uniform(-6, -1)])
            v = [float(D.getFaceCtr(i)[x])*t + float(D.getFaceCtr(j)[x])*(1 - t) for x in range(3)]
        else:
            v = [rng.choice([-1.0, 0.0, 1.0]) for _ in range(3)]
        if sum(x*x for x in v) > 1e-4:
            vs.append(v)
    rng.shuffle(vs)
    for m, v in enumerate(vs):
        L = math.sqrt(sum(x*x for x in v))
        s = rng.choice([1.0, 1.0, 1e-6, 1e-3, 0.5, 7.0, 1e6, 1e-12, 1e12])
        w = [x/L*s for x in v]
        arg = rng.choice([np.array(w), np.array(w), list(w), tuple(w)])
        j = rng.randrange(len(Ds))
        e, ind = call(Ds[j].getFaceInd, arg)
        R("face", k="d%d" % j, v=uvec([x/L for x in v]), err=e, ind=I(ind) if not e else BAD, kept=[float(x) for x in arg] == w)
        if m % 150 == 75:
            j = rng.randrange(len(Ds))
            dodec_facts(R, "d%d" % j, Ds[j], kinds[j], rng)
    for j, D in enumerate(Ds):
        dodec_facts(R, "d%d" % j, D, kinds[j], rng)


def suite_dodec(seed, tier, cases):
    n = 400 if tier == "quick" else 6000
    return [("dodec %s %d" % (p, j), u_dodec, (p, n)) for p in (True, False) for j in range(8)]


# ---------------------------------------------------------------- C25 coverage
def cover_descs(rng, n):
    out = []
    while len(out) < n:
        cls = rng.choice(["dodeca", "equat", "rings", "rings", "healpix"])
        d = confs.rand_desc(rng, cls=cls, axis_rot=cls == "rings")
        top = d["top"]
        d["tb"] = rng.choice(["legacy", "legacy", "cells"])
        # small patches: rounding up to whole patches hides gaps
        if d["tb"] == "legacy":
            d["sub"] = dict(patchInnerDimensions=[rng.choice([1, 1, 2, 5]), rng.choice([1, 1, 3])], patchBorder=rng.choice([0, 1]))
        else:
            c = rng.choice([1, 1, 2])
            d["sub"] = dict(cellInnerDimensions=[c, c], cellBorder=0, numCellsPerPatchInner=rng.choice([1, 2]), numCellsInPatchBorder=0)
        if cls == "dodeca":
            top["projection"] = rng.choice(["TAN", "STG", "ZEA", "ARC"])
            top["tractOverlap"] = rng.choice([0.0, 1.0, 3.5]) if top["projection"] == "TAN" else rng.choice([3.5, 3.5, 5.0])
            w = 80.0
        elif cls == "equat":
            top["projection"] = rng.choice(["CEA", "CEA", "CAR", "MER"])
            w = 360.0/top["numTracts"]
        elif cls == "rings":
            top["numRings"] = rng.choice([2, 3, 4, 5, 6, 8, 11, 16])
            s = 180/(top["numRings"] + 1)
            top["tractOverlap"] = round(s*rng.choice([0.1, 0.1, 0.15, 0.3]), 5) + 1e-5
            d["version"] = 1
            w = s
        else:
            top["rotation"] = 45.0
            w = 58.6/2**top["log2NSide"]
            top["tractOverlap"] = round(w*rng.choice([0.1, 0.15, 0.3]), 4) + 1e-4
        top["pixelScale"] = round(w*3600/rng.choice([300, 1000, 3000]), 4)
        out.append(d)
    return out


def u_cover(R, rng, d, n):
    m = confs.build(d)
    top = confs.full(d)[0]
    counts = confs.ringnums(top["numRings"]) if d["cls"] == "rings" else None
    lo, hi = -Q, Q
    if d["cls"] == "equat":
        lo, hi = (deg_nt(v) for v in top["decRange"])
    ps = edge_positions(rng, d, counts, n)
    for j in range(n):        # the edges and corners of inner regions are where gaps open
        t = m[rng.randrange(len(m))]
        if d["cls"] == "rings":
            a, b, c, e = (angnt(v) for v in m.getRaDecRange(t.getId()))
            f, g = rng.choice([(0, rng.random()), (1, rng.random()), (rng.random(), 0), (rng.random(), 1), (0, 0), (1, 1), (0, 1), (1, 0)])
            ps.append(clip((int(a + ((b - a) % TURN or TURN)*f), int(c + (e - c)*g) + rng.choice([-9, 0, 9]))))
        else:
            vs = t.getVertexList()
            q = rng.randrange(len(vs))
            u, v = vs[q].getVector(), vs[(q + 1) % len(vs)].getVector()
            f = rng.choice([0.0, 0.5, rng.random()])
            x = [u[i]*(1 - f) + v[i]*f for i in range(3)]
            if sum(y*y for y in x) > 1e-9:
                ps.append(clip((int(math.atan2(x[1], x[0])*NT), int(math.atan2(x[2], math.hypot(x[0], x[1]))*NT))))
    for p in ps:
        if not (lo <= p[1] <= hi):
            if d["cls"] != "equat":
                continue
            p = (p[0], rng.choice([lo + 10, hi - 10, rng.randint(lo + 10, hi - 10)]))
        cover(R, "m", m, p)


def cover(R, k, m, p):
    c = pos(*p)
    e, t = call(m.findTract, c)
    con, patch = "E", False
    if not e:
        ce, cv = call(t.contains, c)
        con = "E" if ce else ("T" if cv else "F")
        pe, pv = call(t.findPatch, c)
        patch = not pe and pv is not None
    R("cover", k=k, pos=list(p), con=con, patch=patch)


GAPS = [   # whole-sky maps that leave gaps: the documented minimum overlap is not provided (known findings)
    ("cover-finding dodeca ZEA overlap 1", dict(cls="dodeca", top=dict(tractOverlap=1.0, projection="ZEA", pixelScale=20.0),
                                                sub=dict(patchInnerDimensions=[1, 1], patchBorder=0))),
    ("cover-finding healpix k=1 overlap 1", dict(cls="healpix", top=dict(log2NSide=1, tractOverlap=1.0, projection="STG", pixelScale=20.0),
                                                 sub=dict(patchInnerDimensions=[1, 1], patchBorder=0))),
    ("cover-finding rings rotation 45", dict(cls="rings", version=1, top=dict(numRings=10, tractOverlap=1.7, projection="TAN",
                                                                              pixelScale=20.0, rotation=45.0),
                                             sub=dict(patchInnerDimensions=[1, 1], patchBorder=0))),
]


def u_gap(R, rng, d):
    """One position that is known to be in no tract (fixed seed)."""
    rng = rng_for(1, "gap", confs.key(d))
    m = confs.build(d)
    for _ in range(6000):
        p = rand_nt(rng)
        c = pos(*p)
        if not m.findTract(c).contains(c):
            cover(R, "m", m, p)
            return


def suite_cover(seed, tier, cases):
    rng = rng_for(seed, "cover")
    ds = cover_descs(rng, 96 if tier == "quick" else 1200) + [d for d in confs.FIXED if d["cls"] in ("rings", "dodeca", "equat") and d.get("version", 1)]
    out = [("cover " + confs.key(d), u_cover, (d, 150 if tier == "quick" else 600)) for d in ds]
    return out + [(name, u_gap, (d,)) for name, d in GAPS]


# ---------------------------------------------------------------- C26 where tracts are
def fine(x):
    """An angle in radians as <<nano-turns, thousandths of one>>."""
    if not math.isfinite(x) or abs(x) > 12:
        return [BAD, 0]
    q = x*NT
    f = math.floor(q)
    r = int(round((q - f)*1000))
    return [f + 1, 0] if r == 1000 else [f, r]


def finepos(c):
    return fine(c.getLongitude().asRadians() % (2*math.pi)), fine(c.getLatitude().asRadians())


def u_where(R, rng, d, ntr):
    m = confs.build(d)
    if bindmap(R, "m", m, d) is None:
        return
    n = len(m)
    ids = sorted({0, n - 1} | {rng.randrange(n) for _ in range(ntr)}) if n > ntr else list(range(n))
    rng.shuffle(ids)
    for i in ids:
        with guard(R, "tract %d" % i):
            t = m[i]
            vs = obs.agreed(t, "getVertexList", "vertex_list")
            ctr = obs.agreed(t, "getCtrCoord", "ctr_coord")
            if d["cls"] == "equat":
                R("eqt", k="m", i=i, id=tid(t), ctr=lonlat(ctr), verts=[lonlat(v) for v in vs])
                lo, hi = (math.radians(v) for v in confs.full(d)[0]["decRange"])
                R("eqtf", k="m", i=i, dec0=fine(lo), dec1=fine(hi), mid=fine((lo + hi)/2), ctr=finepos(ctr), verts=[finepos(v) for v in vs])
            elif d["cls"] == "discrete":
                R("dsc", k="m", i=i, id=tid(t), ctr=lonlat(ctr))
                top = confs.full(d)[0]
                R("dscf", k="m", i=i, ra=fine(math.radians(top["raList"][i] % 360)), dec=fine(math.radians(top["decList"][i])), ctr=finepos(ctr))
            elif d["cls"] == "dodeca":
                R("dod", k="m", i=i, id=tid(t), ctr=uvec(ctr.getVector()), verts=[uvec(v.getVector()) for v in vs])
            else:
                R("hpt", k="m", i=i, id=tid(t), ctr=lonlat(ctr), verts=[lonlat(v) for v in vs])


def suite_where(seed, tier, cases):
    rng = rng_for(seed, "where")
    ds = [d for d in confs.FIXED if d["cls"] != "rings"]
    n = 100 if tier == "quick" else 1200
    while len(ds) < n:
        d = confs.rand_desc(rng, cls=rng.choice(["dodeca", "equat", "discrete", "healpix"]), maxpatch=3)
        if rng.random() < 0.3:
            confs.wider(rng, d)
        elif d["cls"] == "equat" and rng.random() < 0.4:      # a band narrower than its tracts
            lo = d["top"]["decRange"][0]
            d["top"]["decRange"] = [lo, round(lo + rng.choice([0.01, 0.05, 0.15]), 3)]
        elif d["cls"] == "discrete" and rng.random() < 0.6:    # right ascensions are angles: any number of turns
            i = rng.randrange(len(d["top"]["raList"]))
            d["top"]["raList"][i] = round(d["top"]["raList"][i] + rng.choice([-720, -360, -360, 360, 1080]), 4)
        ds.append(d)
    return [("where " + confs.key(d), u_where, (d, 16 if tier == "quick" else 60)) for d in ds]


# ---------------------------------------------------------------- C28 summaries
NUM = re.compile(r"(?<![A-Za-z0-9_.])-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def nums(s):
    return [float(x) for x in NUM.findall(s)]


def ints(s):
    out = []
    for v in nums(s):
        out.append(int(v) if v == int(v) and abs(v) < LIM else BAD)
    return out


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def strform(R, what, s, want):
    R("str", what=what, name=isinstance(s, str) and what.lower() in s.lower(), shown=ints(s)[:len(want)], want=want)


def u_log(R, rng, d):
    m = confs.build(d)
    ts = list(confs.build(d))
    tr = []
    for t in ts:
        w, b = t.getWcs(), t.getBBox()
        x0, y0, x1, y1 = -0.5, -0.5, b.getWidth() - 0.5, b.getHeight() - 0.5
        cs = [w.pixelToSky(geom.Point2D(*p)) for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
        if not all(math.isfinite(c.getLongitude().asRadians()) for c in cs):
            return
        n = t.getNumPatches()
        tr.append([I(t.getId()), [lonlat(c) for c in cs], I(n[0]), I(n[1])])
    log = logging.Logger("skymap-check", 0)
    h = Catch()
    log.addHandler(h)
    e, _ = call(m.logSkyMapInfo, log)
    lines = []
    for s in h.lines[1:]:
        v = nums(s)
        if len(v) != 11:
            lines.append([])
            continue
        lines.append([int(v[0]), [[int(round(v[1 + 2*c]*1000)), int(round(v[2 + 2*c]*1000))] for c in range(4)], int(v[9]), int(v[10])])
    first = ints(h.lines[0]) if h.lines else []
    R("log", err=e, first=first[0] if len(first) == 1 else BAD, lines=lines, tracts=tr)
    for t in rng.sample(list(m), min(3, len(m))):
        strform(R, "Tract", str(t), [I(t.getId())])
        strform(R, "Tract", repr(t), [I(t.getId())])
        n = t.getNumPatches()
        p = t.getPatchInfo((rng.randrange(n[0]), rng.randrange(n[1])))
        idx = IL(p.getIndex(), 2)
        boxes = ints(str(p.getInnerBBox())) + ints(str(p.getOuterBBox()))
        strform(R, "Patch", str(p), idx)
        want = idx + boxes
        if d.get("tb") == "cells":
            # also the cell dimensions, the border and the number of cells, in this order
            cd = p.getCellInnerDimensions()
            want = want + [I(cd[0]), I(cd[1]), I(p.getCellBorder()), I(p.getNumCells()[0])]
        strform(R, "Patch", repr(p), want)
        if d.get("tb") == "cells":
            nc = p.getNumCells()
            c = p.getCellInfo((rng.randrange(nc[0]), rng.randrange(nc[1])))
            idx = IL(c.getIndex(), 2)
            strform(R, "Cell", str(c), idx)
            strform(R, "Cell", repr(c), idx + ints(str(c.getInnerBBox())) + ints(str(c.getOuterBBox())))


def suite_log(seed, tier, cases):
    rng = rng_for(seed, "log")
    n = 120 if tier == "quick" else 1200
    ds = [d for d in confs.FIXED if d["cls"] in ("dodeca", "equat", "discrete")]
    while len(ds) < n:
        d = confs.rand_desc(rng)
        if d["cls"] == "rings" and d["top"]["numRings"] > 8:
            continue
        ds.append(d)
    return [("log " + confs.key(d), u_log, (d,)) for d in ds]
