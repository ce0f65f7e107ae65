"""Packers (spec/TracePack.tla)."""
import collections
import collections.abc
import json
import types

from common import *  # noqa: F401,F403
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker, SkyMapDimensionPackerConfig

UNI = DimensionUniverse()
NAMES = ["g", "r", "i", "z", "y", "u", "B", "N515", "Zed", "x1"]
BUILTIN = (["u", "g", "r", "i", "z", "y", "U", "B", "G", "V", "R", "I", "Z", "Y", "J", "H", "K"]
           + ["N%d" % d for d in (387, 515, 656, 816, 921, 1010, 419, 540, 708, 964)])


def digits(v):
    """A natural number for BigNat; <<BAD>> otherwise."""
    try:
        if isinstance(v, bool) or int(v) != v:
            return [BAD], False
        v = int(v)
        neg = v < 0
        v = abs(v)
        out = []
        while v:
            out.append(v % 10000)
            v //= 10000
        return out, neg
    except Exception:
        return [BAD], False


def fixed(rec, name="sky"):
    f = DataCoordinate.from_full_values(UNI.conform(["skymap"]), values=(name,))
    if rec:
        f = f.expanded(records={"skymap": UNI["skymap"].RecordClass(name=name, tract_max=rec[0], patch_nx_max=rec[1],
                                                                    patch_ny_max=rec[2])})
    return f


class OwnMap(collections.abc.Mapping):
    """A mapping that is no dict."""

    def __init__(self, items):
        self._i = list(items)

    def __getitem__(self, k):
        for a, b in self._i:
            if a == k:
                return b
        raise KeyError(k)

    def __iter__(self):
        return iter([a for a, _ in self._i])

    def __len__(self):
        return len(self._i)


MAPPINGS = [dict, dict, lambda b: types.MappingProxyType(dict(b)), lambda b: collections.OrderedDict(b), OwnMap,
            lambda b: collections.ChainMap(dict(b))]


def make(how, rec, dims, bands, nb, nt, np_, explicit, name="sky", mapping=dict):
    """A packer built in one of the supported ways."""
    fx = fixed(rec, name)
    opt = dict(bands=None if bands is None else (mapping if how in ("ctor", "pos") else dict)(bands), n_bands=None if nb < 0 else nb,
               n_tracts=None if nt < 0 else nt, n_patches=None if np_ < 0 else np_)
    if how == "ctor":
        kw = {k: v for k, v in opt.items() if v is not None or explicit}
        if dims:
            kw["dimensions"] = UNI.conform([d for d in dims])
        return SkyMapDimensionPacker(fx, **kw)
    if how == "pos":
        return SkyMapDimensionPacker(fx, UNI.conform(dims) if dims else None, opt["bands"], opt["n_bands"], opt["n_tracts"],
                                     opt["n_patches"])
    full = DataCoordinate.standardize(skymap=name, tract=0, patch=0, universe=UNI)
    if rec:
        full = fx
    if how == "fullrec":
        # a data ID of tract, patch and band with all its records
        g = UNI.conform(["tract", "patch", "band"] if nb != 0 else ["tract", "patch"])
        v = dict(skymap=name, tract=1, patch=2, band="g")
        d = DataCoordinate.from_full_values(g, values=tuple(v[n] for n in g.required))
        r = rec or [3, 2, 2]
        rcs = dict(skymap=UNI["skymap"].RecordClass(name=name, tract_max=r[0], patch_nx_max=r[1], patch_ny_max=r[2]),
                   tract=UNI["tract"].RecordClass(skymap=name, id=1), band=UNI["band"].RecordClass(name="g"),
                   patch=UNI["patch"].RecordClass(skymap=name, tract=1, id=2, cell_x=0, cell_y=1))
        full = d.expanded(records={k: rcs[k] for k in g.elements if k in rcs})
        how = "config"
    if how == "saved":
        import tempfile
        c = SkyMapDimensionPacker.ConfigClass()
        for k, v in opt.items():
            setattr(c, k, v)
        c2 = SkyMapDimensionPacker.ConfigClass()
        with tempfile.NamedTemporaryFile(suffix=".py") as f:
            c.save(f.name)
            c2.load(f.name)
        return SkyMapDimensionPacker.from_config(full, c2)
    if how == "config":
        c = SkyMapDimensionPacker.ConfigClass()
        for k, v in opt.items():
            setattr(c, k, v)
        return SkyMapDimensionPacker.from_config(full, config=c)
    if how == "field":
        import lsst.pex.config as pexConfig

        class C(pexConfig.Config):
            packer = SkyMapDimensionPacker.make_config_field()
        c = C()
        for k, v in opt.items():
            setattr(c.packer, k, v)
        return c.packer.apply(full)
    raise KeyError(how)


def pk(R, k, how, rec, dims, bands, nb, nt, np_, explicit=True, name="sky", mapping=dict):
    err, p = call(make, how, rec, dims, bands, nb, nt, np_, explicit, name, mapping)
    got, bits = [], BAD
    if not err:
        err, v = call(lambda: (sorted(p.dimensions.names), p.maxBits))
        if not err:
            got, bits = v[0], I(v[1])
    R("pk", k=k, how=how, err=err, rec=list(rec or []), dims=list(dims), builtin=bands is None,
      bands=[list(b) for b in (bands or [])], nb=nb, nt=nt, np=np_, got=got, bits=bits)
    return p if not err else None


def again(R, k, p):
    """The dimensions and the number of bits, asked for once more."""
    err, v = call(lambda: (sorted(p.dimensions.names), p.maxBits, p.fixed["skymap"]))
    R("again", k=k, err=err, got=[] if err else v[0], bits=BAD if err else I(v[1]))


def unpack(R, k, p, v, withband, name, want):
    """What a packed number means; digits of the number are in the event of its packing."""
    tract, patch, band = want
    err, b = call(p.unpack, v)
    back, sky = dict(tract=BAD, patch=BAD, band="?"), False
    if not err:
        err, x = call(lambda: (I(b["tract"]), I(b["patch"]), b["band"] if withband else "", b["skymap"]))
        if not err:
            back = dict(tract=x[0], patch=x[1], band=S(x[2]))
            sky = x[3] == name
    R("unpack", k=k, id=dict(tract=tract, patch=patch, band=band), err=err, back=back, sky=sky)


def pack(R, k, p, tract, patch, band, withband, name="sky", extra=None, forms=True):
    d = dict(skymap=name, tract=tract, patch=patch)
    if withband:
        d["band"] = band
    if extra:
        d.update({a: b for a, b in extra.items() if a not in d})
    err, did = call(lambda: DataCoordinate.standardize(d, universe=UNI))
    if err:
        R("crash", where="data id", ex=err[0], loc="")
        return None
    err, v = call(p.pack, did)
    val, neg, back, berr, sky, eqid, okf = [], False, dict(tract=BAD, patch=BAD, band="?"), [], False, False, not forms
    if not err:
        val, neg = digits(v)
        berr, b = call(p.unpack, v)
        if not berr:
            berr, x = call(lambda: (I(b["tract"]), I(b["patch"]), b["band"] if withband else "", b["skymap"],
                                    b == did.subset(p.dimensions), set(b.dimensions.names) == set(p.dimensions.names)))
            if not berr:
                back = dict(tract=x[0], patch=x[1], band=S(x[2]))
                sky, eqid = x[3] == name, bool(x[4] and x[5])
        if forms:
            e2, f = call(lambda: p.pack(d) == v and p.pack(**d) == v and p.pack(did, returnMaxBits=True) == (v, p.maxBits)
                         and p.pack(dict(d, tract=0), tract=tract) == v)
            okf = bool(not e2 and f)
    R("pack", k=k, id=dict(tract=tract, patch=patch, band=band), err=err, val=val, neg=neg, back=back, backErr=berr,
      sky=sky, eqid=eqid, forms=okf)
    return None if err else (v, (tract, patch, band))


HOWS = ["ctor", "pos", "config", "field", "fullrec", "saved"]
SKIES = ["sky", "hsc_rings_v1", "x", "DC2/cells", "sky2"]


def interleave(R, rng, ps, jobs):
    """Packs and unpacks with several packers in turn, in any order.

    ps: k -> (packer, with band, name); jobs: (k, tract, patch, band)."""
    rng.shuffle(jobs)
    out = []
    for n, (k, t, q, b) in enumerate(jobs):
        p, wb, name = ps[k]
        ex = None
        if rng.random() < 0.2:
            ex = dict(band="zz") if not wb and rng.random() < 0.5 else dict(instrument="Cam", detector=3)
        r = pack(R, k, p, t, q, b, wb, name, ex, forms=n % 3 == 0)
        if r is not None:
            out.append((k, r))
        if out and rng.random() < 0.35:
            k2, (v, w) = rng.choice(out)
            unpack(R, k2, ps[k2][0], v, ps[k2][1], ps[k2][2], w)
        if rng.random() < 0.1:
            k2 = rng.choice(list(ps))
            again(R, k2, ps[k2][0])
    for k in ps:
        again(R, k, ps[k][0])
    for k, (v, w) in rng.sample(out, min(len(out), 40)):
        unpack(R, k, ps[k][0], v, ps[k][1], ps[k][2], w)


def grid_unit(R, rng, cs):
    """The packers of the model, all their data IDs, and what lies just outside."""
    R("begin")
    ps, jobs = {}, []
    for k, c in enumerate(cs):
        how = rng.choice(HOWS)
        order = [tuple(b) for b in c["map"]]
        rec = None
        nt, np_ = c["nt"], c["np"]
        if rng.random() < 0.5:
            rec = [c["nt"], c["np"], 1] if rng.random() < 0.5 else [c["nt"], 1, c["np"]]
            if rng.random() < 0.5:
                nt = -1
            if rng.random() < 0.5:
                np_ = -1
            if nt >= 0:
                rec[0] += 3       # not to be used
            if np_ >= 0:
                rec[1] += 2
        dims = []
        if how in ("ctor", "pos") and rng.random() < 0.4:
            dims = ["skymap", "tract", "patch"] + (["band"] if c["nb"] else [])
        name = rng.choice(SKIES)
        p = pk(R, k, how, rec, dims, order, c["nb"], nt, np_, True, name, rng.choice(MAPPINGS))
        if p is None:
            continue
        wb = c["nb"] != 0
        ps[k] = (p, wb, name)
        bands = [b for b, _ in order] + ["q"] if wb else ["g"]
        jobs += [(k, t, q, b) for t in range(c["nt"] + 1) for q in range(c["np"] + 1) for b in bands]
        # far outside: wholes of the limits, next to powers of two
        for big in (2*c["nt"], c["nt"]*c["np"], 64, 1 << 16, 1 << 24):
            if big >= c["nt"]:
                jobs.append((k, big, 0, bands[0]))
            if big >= c["np"]:
                jobs.append((k, 0, big, bands[0]))
    interleave(R, rng, ps, jobs)


def suite_grid(seed, tier, cases):
    cs = [json.loads(x) for x in open(cases)]
    rng_for(seed, "packers").shuffle(cs)
    cs = cs[:160 if tier == "quick" else 4000]
    n = 16 if tier == "quick" else 64
    return [("packers %d" % i, grid_unit, (cs[i::n],)) for i in range(n)]


def rand_unit(R, rng, n):
    """Large limits, long mappings, all combinations of given and omitted arguments."""
    R("begin")
    ps, jobs = {}, []
    for k in range(n):
        how = rng.choice(HOWS)
        NTs = [1, 2, 5, 12, 100, 18938, 65536, 999999, 100000000]
        NPs = [1, 2, 9, 49, 81, 100, 400, 4096, 1000000]
        T = rng.choice(NTs + [rng.randint(1, 20000)])
        nx, ny = rng.choice([1, 3, 7, 9, 10, 64, 999]), rng.choice([1, 2, 7, 9, 11, 64, 1000])
        P = rng.choice(NPs)
        rec = None if rng.random() < 0.4 else [T, nx, ny]
        nt = T if rec is None or rng.random() < 0.4 else -1
        np_ = P if rec is None or rng.random() < 0.4 else -1
        if rec and nt >= 0:
            nt = rng.choice([T, max(1, T//2), T + 1])
        if rec and rng.random() < 0.15:      # no tract, no patch: a limit like any other
            if rng.random() < 0.5:
                nt = 0
            else:
                np_ = 0
        bands = None
        r = rng.random()
        if r < 0.15:        # a mapping of no bands is a mapping
            bands = []
        elif r < 0.65:
            m = rng.randint(1, len(NAMES))
            idx = rng.sample(range(m), m) if rng.random() < 0.5 else rng.sample(range(3*m), m)
            bands = list(zip(rng.sample(NAMES, m), idx))
        size = 28 if bands is None else len(bands)
        nb = rng.choice([-1, -1, 0, 1, size, max(1, size - 2), size + 5, 64]) if size else rng.choice([-1, -1, 0, 3])
        dims = []
        if how in ("ctor", "pos"):
            r = rng.random()
            if r < 0.25:
                dims = ["skymap", "tract", "patch"]
            elif r < 0.5:
                dims = ["skymap", "tract", "patch", "band"]
        if "band" in dims and (nb == 0 or nb < 0 and size == 0):
            nb = -1 if size else 4
        name = rng.choice(SKIES)
        p = pk(R, k, how, rec, dims, bands, nb, nt, np_, rng.random() < 0.5, name, rng.choice(MAPPINGS))
        if p is None:
            continue
        et = nt if nt >= 0 else rec[0]
        ep = np_ if np_ >= 0 else rec[1]*rec[2]
        enb = 0 if (dims and "band" not in dims) else (size if nb < 0 else nb)
        wb = enb != 0
        allb = [b for b, _ in bands] if bands else BUILTIN
        ps[k] = (p, wb, name)
        tr = {0, max(0, et - 1), et, et + 1, rng.randrange(et or 1), et//2}
        pa = {0, max(0, ep - 1), ep, ep + 1, rng.randrange(ep or 1), ep//2}
        for t in sorted(tr):
            for q in sorted(pa):
                for b in rng.sample(allb, min(2, len(allb))):
                    jobs.append((k, t, q, b))
                    if not wb:
                        break
        for t, q in ((2*et, 0), (0, 2*ep), (et*2 + 1, max(0, ep - 1)), (999999999, 0), (0, 999999999)):
            if t >= et or q >= ep:
                jobs.append((k, min(t, 10**9), min(q, 10**9), allb[0]))
        if wb:
            for b in allb + ["nope", allb[0] + " ", "G7", allb[0].swapcase(), allb[-1] + "2"]:
                jobs.append((k, rng.randrange(et or 1), rng.randrange(ep or 1), b))
    interleave(R, rng, ps, jobs)


def huge_pairs():
    """Limits whose product is a power of two, or next to one: 2^(4k+2)+1 has two factors of nearly its root."""
    out = []
    for k in range(2, 15):
        out.append((2**(2*k + 1) - 2**(k + 1) + 1, 2**(2*k + 1) + 2**(k + 1) + 1))
        out.append((2**(2*k + 1) - 1, 2**(2*k + 1) + 1))
        out.append((2**(2*k + 1), 2**(2*k)))
        out.append((2**(2*k) + 1, 2**(2*k + 1)))
        out.append((2**(2*k + 1) - 1, 2**(2*k + 1)))
    return out


def huge_unit(R, rng, prs):
    R("begin")
    k = 0
    for a, b in prs:
        for nb in (0, rng.choice([1, 2, 4, 64]), rng.choice([3, 5, 7, 28])):
            k += 1
            if rng.random() < 0.5:
                a, b = b, a
            bands = [("r", nb - 1), ("g", 0)] if nb > 1 else [("g", 0)]
            p = pk(R, k, rng.choice(HOWS), None, [], bands, nb, a, b)
            if p is None:
                continue
            for t in (0, 1, a//2, a - 2, a - 1, a):
                for q in (0, b//2, b - 1, b):
                    pack(R, k, p, max(t, 0), q, bands[0][0], nb != 0)


def suite_rand(seed, tier, cases):
    out = [("random packers %d" % i, rand_unit, (6,)) for i in range(24 if tier == "quick" else 400)]
    h = huge_pairs()
    return out + [("huge packers %d" % i, huge_unit, (h[i::8],)) for i in range(8)]


def dims_unit(R, rng):
    """Dimensions that are and are not accepted; defaults."""
    R("begin")
    k = 0
    extra = ["visit", "detector", "band", "instrument", "physical_filter", "exposure", "healpix9", "htm7", "subfilter"]
    sets = [["skymap"], ["skymap", "tract"], ["skymap", "patch"], ["band"], ["skymap", "band"], ["skymap", "tract", "band"],
            ["skymap", "tract", "patch"], ["skymap", "tract", "patch", "band"], ["visit"], ["tract", "patch", "visit"],
            ["tract", "patch", "detector"]]
    for _ in range(12):
        sets.append(rng.sample(["skymap", "tract", "patch"] + extra, rng.randint(1, 5)))
        sets.append(["tract", "patch"] + rng.sample(extra, rng.randint(1, 2)))
    for s in sets:
        err, g = call(lambda: sorted(UNI.conform(s).names))
        if err:
            continue
        for nb in (-1, 0, 3):
            if "band" in g and nb == 0:
                continue
            for bands in (None, [("g", 1), ("r", 0)]):
                k += 1
                rec = [5, 3, 4]
                pk(R, k, rng.choice(["ctor", "pos"]), rec, g, bands, nb, rng.choice([-1, 4]), rng.choice([-1, 7]),
                   explicit=rng.random() < 0.5)
    # nothing given at all
    for nb in (-1, 0):
        k += 1
        p = pk(R, k, "ctor", [5, 3, 4], [], None, nb, -1, -1, explicit=False)
        if p is not None:
            for t, q in ((0, 0), (4, 11), (5, 0), (0, 12), (2, 7)):
                for b in (BUILTIN if nb else ["g"]):
                    pack(R, k, p, t, q, b, nb != 0)
    c = SkyMapDimensionPackerConfig()
    R("field", nb=I(c.n_bands), none=c.bands is None and c.n_tracts is None and c.n_patches is None)
    import lsst.pex.config as pexConfig

    class C(pexConfig.Config):
        packer = SkyMapDimensionPacker.make_config_field()
    f = C()
    R("field", nb=I(f.packer.n_bands), none=f.packer.bands is None and f.packer.n_tracts is None and f.packer.n_patches is None)
    for how in ("config", "field"):
        for rec in ([5, 3, 4], [7, 1, 1]):
            k += 1
            e, p = call(make, how, rec, [], None, 0, -1, -1, False)
            p = pk(R, k, how, rec, [], None, 0, -1, -1)
            if p is not None:
                pack(R, k, p, 3, 0, "", False)
                pack(R, k, p, rec[0], 0, "", False)
                pack(R, k, p, 0, rec[1]*rec[2], "", False)
                pack(R, k, p, rec[0] - 1, rec[1]*rec[2] - 1, "", False)


def suite_dims(seed, tier, cases):
    return [("dimensions %d" % i, dims_unit, ()) for i in range(2 if tier == "quick" else 20)]
