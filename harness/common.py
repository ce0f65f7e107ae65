"""Recording real executions of lsst.skymap as traces for the specification.

Everything here observes the public interface only.  A trace is a list of
events (dicts of ints, strings, booleans and lists); spec/Trace*.tla judge them.
"""
import json
import math
import os
import random
import signal
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (os.path.join(REPO, "python"), HERE):
    if p not in sys.path:
        sys.path.insert(0, p)
warnings.simplefilter("ignore")
import substrate  # noqa: E402
substrate.install()
import numpy as np  # noqa: E402
import lsst.geom as geom  # noqa: E402
import lsst.afw.geom as afwGeom  # noqa: E402

BAD = -1999999999          # stands for a value of the wrong type or out of range
LIM = 1000000000


def I(v):
    """An int for the specification; BAD when it is not one."""
    try:
        if isinstance(v, (bool, str)) or v is None:
            return BAD
        if isinstance(v, (int, np.integer)):
            n = int(v)
        elif isinstance(v, np.ndarray) and v.ndim == 0:
            return I(v[()])
        else:
            f = float(v)
            n = int(f)
            if n != f:
                return BAD
        return n if -LIM <= n <= LIM else BAD
    except Exception:
        return BAD


def IL(seq, n=None):
    """A list of ints; [BAD]*n if it cannot be read."""
    try:
        out = [I(v) for v in seq]
    except Exception:
        out = None
    if out is None or (n is not None and len(out) != n):
        return [BAD]*(n or 1)
    return out


def box(b):
    """A Box2I as [x0, y0, w, h]."""
    try:
        return [I(b.getMinX()), I(b.getMinY()), I(b.getWidth()), I(b.getHeight())]
    except Exception:
        return [BAD]*4


def B(v):
    return bool(v)


def S(v):
    return v if isinstance(v, str) else "?" + type(v).__name__


def micro(x):
    """A pixel coordinate as [floor, micro-pixels], clamped to 1e8."""
    if not math.isfinite(x):
        return [BAD, 0]
    if abs(x) > 1e8:
        return [100000000 if x > 0 else -100000000, 0]
    f = math.floor(x)
    m = int(round((x - f)*1e6))
    if m >= 1000000:
        f, m = f + 1, 0
    return [f, m]


def halfpix(x):
    """A pixel coordinate as [2x rounded, deviation in micro-pixels]."""
    if not math.isfinite(x) or abs(x) > 4e8:
        return [BAD, LIM]
    n = round(2*x)
    return [int(n), int(min(LIM, abs(2*x - n)*5e5))]


NT = 1e9/(2*math.pi)


def nt(rad):
    """An angle in radians as nano-turns."""
    r = float(rad)
    if not math.isfinite(r) or abs(r) > 12:
        return BAD
    return int(round(r*NT))


def angnt(a):
    try:
        return nt(a.asRadians())
    except Exception:
        return BAD


def lonlat(sp):
    try:
        return [nt(sp.getLongitude().asRadians()) % 1000000000, nt(sp.getLatitude().asRadians())]
    except Exception:
        return [BAD, BAD]


def uvec(v, scale=1e8):
    try:
        return [int(round(float(v[i])*scale)) for i in range(3)]
    except Exception:
        return [BAD]*3


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


class timer:
    """Hang is raised after so many seconds of processor time, however busy the machine is (or of 6 times that of any time)."""

    def __init__(self, limit):
        self.limit = limit

    def __enter__(self):
        self.old = [signal.signal(s, _alarm) for s in (signal.SIGALRM, signal.SIGPROF)]
        signal.setitimer(signal.ITIMER_PROF, self.limit)
        signal.setitimer(signal.ITIMER_REAL, 6*self.limit)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        for s, o in zip((signal.SIGALRM, signal.SIGPROF), self.old):
            signal.signal(s, o)
        return False


class Rec:
    """Collects events."""

    def __init__(self, path=None, limit=None):
        self.ev = []
        self.path = path
        self.ctx = ""
        self.counts = {}

    def __call__(self, op, **kw):
        d = {"op": op}
        d.update(kw)
        d["ctx"] = self.ctx
        self.ev.append(d)
        self.counts[op] = self.counts.get(op, 0) + 1
        return d

    def crash(self, where, ex):
        import traceback
        fr = traceback.extract_tb(ex.__traceback__)
        loc = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr[-4:]))
        self("crash", where=where, ex="%s: %s" % (type(ex).__name__, str(ex)[:200]), loc=loc)

    def write(self, path):
        with open(path, "w") as f:
            for d in self.ev:
                f.write(json.dumps(d) + "\n")


def names(ex):
    """The names of an exception's classes (for 'raises IndexError')."""
    return [c.__name__ for c in type(ex).__mro__ if c not in (object, BaseException)]


def call(f, *a, limit=20, **kw):
    """-> (error class names, value); hanging calls come back as ['Hang']."""
    try:
        with timer(limit):
            return [], f(*a, **kw)
    except Hang:
        return ["Hang"], None
    except RecursionError as e:
        return names(e), None
    except Exception as e:
        return names(e), None


class guard:
    """with guard(R, 'where'): an exception of the code under test becomes a crash event."""

    def __init__(self, R, where, limit=120):
        self.R, self.where, self.limit = R, where, limit

    def __enter__(self):
        self.timer = timer(self.limit)
        self.timer.__enter__()
        return self

    def __exit__(self, t, e, tb):
        self.timer.__exit__()
        if t is None:
            return False
        if issubclass(t, Hang):
            self.R("crash", where=self.where, ex="no answer in %ss" % self.limit, loc="")
            return True
        if issubclass(t, Exception):
            self.R.crash(self.where, e)
            return True
        return False


def rng_for(seed, *names):
    return random.Random("/".join([str(seed)] + [str(n) for n in names]))


def sp(ra, dec, unit=None):
    return geom.SpherePoint(ra, dec, unit if unit is not None else geom.degrees)
