"""Stand-in for ``lsst.geom`` (not installable here): the environment of skymap.

Written from the documented semantics of lsst.geom; broad on purpose, so that a
refactoring of skymap that reaches for another method of a box or an angle
still runs.  It is part of the trusted base of every check (see DESIGN.md).
"""
from __future__ import annotations

import math
import numbers
from enum import Enum

import numpy as np
import lsst.sphgeom as _sphgeom

from lsst.pex import exceptions as _pexExceptions

__all__ = ["Angle", "AngleUnit", "degrees", "radians", "hours", "arcminutes", "arcseconds", "milliarcseconds",
           "SpherePoint", "averageSpherePoint", "Point2I", "Point2D", "Point3D", "Point3I", "PointI", "PointD",
           "Extent2I", "Extent2D", "Extent3D", "Extent3I", "ExtentI", "ExtentD", "Point", "Extent", "Box",
           "Box2I", "Box2D", "BoxI", "BoxD", "IntervalI", "IntervalD", "LinearTransform", "AffineTransform",
           "degToRad", "radToDeg", "radToArcsec", "arcsecToRad", "radToMas", "masToRad", "PI", "TWOPI", "HALFPI",
           "isAngle", "CoordinateExpr2", "floor", "ceil", "truncate"]

PI = math.pi
TWOPI = 2*math.pi
HALFPI = 0.5*math.pi
INT_MIN, INT_MAX = -2**31, 2**31 - 1


def degToRad(x):
    return x*(math.pi/180.0)


def radToDeg(x):
    return x*(180.0/math.pi)


def radToArcsec(x):
    return radToDeg(x)*3600.0


def radToMas(x):
    return radToDeg(x)*3600.0e3


def arcsecToRad(x):
    return degToRad(x/3600.0)


def masToRad(x):
    return degToRad(x/3600.0e3)


# ---------------------------------------------------------------- angles
class AngleUnit:
    __slots__ = ("_val",)
    __array_ufunc__ = None

    def __init__(self, val):
        self._val = float(val)

    def __mul__(self, other):
        return Angle(float(other), self)

    __rmul__ = __mul__

    def __eq__(self, other):
        return isinstance(other, AngleUnit) and self._val == other._val

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (AngleUnit, (self._val,))

    def __repr__(self):
        for name in ("radians", "degrees", "hours", "arcminutes", "arcseconds", "milliarcseconds"):
            if globals().get(name) is not None and globals()[name]._val == self._val:
                return name
        return "AngleUnit(%r)" % self._val


radians = AngleUnit(1.0)
degrees = AngleUnit(math.pi/180.0)
hours = AngleUnit(math.pi*15.0/180.0)
arcminutes = AngleUnit(math.pi/60.0/180.0)
arcseconds = AngleUnit(math.pi/180.0/3600.0)
milliarcseconds = AngleUnit(math.pi/(180.0*3600.0e3))


def _num(x):
    return isinstance(x, numbers.Real) or isinstance(x, (np.floating, np.integer))


class Angle:
    __slots__ = ("_val",)
    __array_ufunc__ = None

    def __init__(self, val=0.0, units=None):
        if isinstance(val, Angle):
            self._val = val._val
        elif isinstance(val, (_sphgeom.Angle, _sphgeom.NormalizedAngle)):
            self._val = val.asRadians()
        else:
            self._val = float(val)*((units or radians)._val)

    def __float__(self):
        return self._val

    def asAngularUnits(self, unit):
        return self._val/unit._val

    def asRadians(self):
        return self._val

    def asDegrees(self):
        return self._val/degrees._val

    def asHours(self):
        return self._val/hours._val

    def asArcminutes(self):
        return self._val/arcminutes._val

    def asArcseconds(self):
        return self._val/arcseconds._val

    def asMilliarcseconds(self):
        return self._val/milliarcseconds._val

    def toUnitX(self):
        return math.cos(self._val)

    def toUnitY(self):
        return math.sin(self._val)

    def isNormalized(self):
        return 0.0 <= self._val < TWOPI

    def wrap(self):
        w = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if w < 0:
            w += TWOPI
            if w >= TWOPI:
                w = 0.0
        return Angle(w)

    def wrapCtr(self):
        w = math.fmod(self._val, TWOPI) if math.isfinite(self._val) else math.nan
        if w < -PI:
            w += TWOPI
            if w >= PI:
                w = -PI
        elif w >= PI:
            w -= TWOPI
            if w < -PI:
                w = -PI
        return Angle(w)

    def wrapNear(self, refAng):
        ref = refAng._val
        w = (self - refAng).wrapCtr()._val + ref
        if w - ref >= PI:
            w -= TWOPI
        if w - ref < -PI:
            w += TWOPI
            if w - ref >= PI:
                w = ref - PI
        return Angle(w)

    def separation(self, other):
        return (self - other).wrapCtr()

    @staticmethod
    def fromRadians(x):
        return Angle(x)

    @staticmethod
    def fromDegrees(x):
        return Angle(x, degrees)

    @staticmethod
    def nan():
        return Angle(math.nan)

    def isNan(self):
        return math.isnan(self._val)

    def __neg__(self):
        return Angle(-self._val)

    def __pos__(self):
        return Angle(self._val)

    def __abs__(self):
        return Angle(abs(self._val))

    def __add__(self, o):
        if isinstance(o, Angle):
            return Angle(self._val + o._val)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, Angle):
            return Angle(self._val - o._val)
        return NotImplemented

    def __iadd__(self, o):
        if isinstance(o, Angle):
            return Angle(self._val + o._val)
        return NotImplemented

    def __isub__(self, o):
        if isinstance(o, Angle):
            return Angle(self._val - o._val)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, Angle):
            raise TypeError("cannot multiply two Angles")
        if _num(o):
            return Angle(self._val*float(o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Angle):
            return self._val/o._val
        if _num(o):
            return Angle(self._val/float(o))
        return NotImplemented

    def __rtruediv__(self, o):
        raise TypeError("unsupported operand type(s) for /: '%s' and 'Angle'" % type(o).__name__)

    def __bool__(self):
        return self._val != 0.0

    def _cmp(self, o):
        if isinstance(o, Angle):
            return o._val
        if _num(o):
            return float(o)
        return None

    def __eq__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val == v

    def __ne__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val != v

    def __lt__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val < v

    def __le__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val <= v

    def __gt__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val > v

    def __ge__(self, o):
        v = self._cmp(o)
        return NotImplemented if v is None else self._val >= v

    def __hash__(self):
        return hash(self._val)

    def __reduce__(self):
        return (Angle, (self._val,))

    def __str__(self):
        return "%.9g rad" % self._val

    def __repr__(self):
        return "Angle(%.17g, degrees)" % self.asDegrees() if not math.isnan(self._val) else "Angle(nan, degrees)"


NullAngle = Angle(math.nan)


def isAngle(x):
    return isinstance(x, Angle)


# ---------------------------------------------------------------- tuples
def _index(x, what="int"):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    raise TypeError("incompatible constructor arguments: %r is not an integer" % (x,))


def _real(x):
    if isinstance(x, (numbers.Real, np.floating, np.integer)):
        return float(x)
    raise TypeError("incompatible constructor arguments: %r is not a number" % (x,))


def _roundI(x):
    if math.isnan(x) or math.isinf(x) or abs(x) > 2.1e9:
        return INT_MIN   # what the C++ cast gives on x86
    return int(math.floor(x + 0.5))


class _Coord:
    """Common part of Point and Extent: fixed length, indexable, not iterable by __iter__."""
    N = 2
    INT = False
    __array_ufunc__ = None

    def __init__(self, *args):
        N = self.N
        cls = type(self)
        if len(args) == 0:
            vals = [0]*N if self.INT else [0.0]*N
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, _Coord):
                if a.N != N:
                    raise TypeError("dimension mismatch")
                if self.INT and not a.INT:
                    if self._EXT or a._EXT:
                        raise TypeError("incompatible constructor arguments")
                    vals = [_roundI(v) for v in a._v]
                else:
                    vals = list(a._v)
            elif isinstance(a, (int, np.integer)) and not isinstance(a, bool):
                vals = [a]*N
            elif isinstance(a, (float, np.floating)) and not self.INT:
                vals = [a]*N
            elif isinstance(a, (str, dict)) or not hasattr(a, "__len__"):
                raise TypeError("incompatible constructor arguments: %r" % (a,))
            else:
                if len(a) != N:
                    raise TypeError("incompatible constructor arguments: need %d values" % N)
                vals = [a[i] for i in range(N)]
        elif len(args) == N:
            vals = list(args)
        else:
            raise TypeError("incompatible constructor arguments: %r" % (args,))
        conv = _index if self.INT else _real
        self._v = [conv(x) for x in vals]
        if cls.INT:
            for x in self._v:
                if not INT_MIN <= x <= INT_MAX:
                    raise TypeError("incompatible constructor arguments: %r does not fit an int" % (x,))

    def __len__(self):
        return self.N

    def _i(self, i):
        i = i.__index__()
        if i < -self.N or i >= self.N:
            raise IndexError("Invalid index %d for %s" % (i, type(self).__name__))
        return i

    def __getitem__(self, i):
        return self._v[self._i(i)]

    def __setitem__(self, i, x):
        self._v[self._i(i)] = _index(x) if self.INT else _real(x)

    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    def setX(self, x):
        self[0] = x

    def setY(self, y):
        self[1] = y

    x = property(getX, setX)
    y = property(getY, setY)

    def clone(self):
        return type(self)(self)

    def __copy__(self):
        return type(self)(self)

    def __deepcopy__(self, memo):
        return type(self)(self)

    def __reduce__(self):
        return (type(self), tuple(self._v))

    def __eq__(self, o):
        if isinstance(o, _Coord) and o.N == self.N and o._EXT == self._EXT:
            return all(a == b for a, b in zip(self._v, o._v))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(tuple(self._v))

    def _each(self, o, f):
        if isinstance(o, _Coord):
            return tuple(f(a, b) for a, b in zip(self._v, o._v))
        return tuple(f(a, o) for a in self._v)

    def lt(self, o):
        return self._each(o, lambda a, b: a < b)

    def le(self, o):
        return self._each(o, lambda a, b: a <= b)

    def gt(self, o):
        return self._each(o, lambda a, b: a > b)

    def ge(self, o):
        return self._each(o, lambda a, b: a >= b)

    def eq(self, o):
        return self._each(o, lambda a, b: a == b)

    def ne(self, o):
        return self._each(o, lambda a, b: a != b)

    def __str__(self):
        return "(" + ", ".join(("%d" % v) if self.INT else ("%.5g" % v) for v in self._v) + ")"

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(repr(v) for v in self._v) + ")"

    def __bool__(self):
        return True


def _kind(N, INT, EXT):
    return globals()[("Extent" if EXT else "Point") + str(N) + ("I" if INT else "D")]


class _Extent(_Coord):
    _EXT = True

    def asPoint(self):
        return _kind(self.N, self.INT, False)(*self._v)

    def computeNorm(self):
        return math.sqrt(sum(v*v for v in self._v))

    def computeSquaredNorm(self):
        return sum(v*v for v in self._v)

    def dot(self, o):
        return sum(a*b for a, b in zip(self._v, o._v))

    def truncate(self):
        return _kind(self.N, True, True)(*[int(v) for v in self._v])

    def floor(self):
        return _kind(self.N, True, True)(*[math.floor(v) for v in self._v])

    def ceil(self):
        return _kind(self.N, True, True)(*[math.ceil(v) for v in self._v])

    def __add__(self, o):
        if isinstance(o, _Coord) and o.N == self.N:
            cls = _kind(self.N, self.INT and o.INT, o._EXT)
            return cls(*[a + b for a, b in zip(self._v, o._v)])
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, _Extent) and o.N == self.N:
            return _kind(self.N, self.INT and o.INT, True)(*[a - b for a, b in zip(self._v, o._v)])
        return NotImplemented

    def __iadd__(self, o):
        r = self + o
        if r is NotImplemented:
            return r
        self._v = list(type(self)(r)._v)
        return self

    def __isub__(self, o):
        r = self - o
        if r is NotImplemented:
            return r
        self._v = list(type(self)(r)._v)
        return self

    def __neg__(self):
        return type(self)(*[-v for v in self._v])

    def __pos__(self):
        return type(self)(self)

    def __mul__(self, o):
        if isinstance(o, (int, np.integer)):
            return type(self)(*[v*int(o) for v in self._v])
        if _num(o):
            return _kind(self.N, False, True)(*[v*float(o) for v in self._v])
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _num(o):
            return _kind(self.N, False, True)(*[v/float(o) for v in self._v])
        return NotImplemented

    def __floordiv__(self, o):
        if self.INT and isinstance(o, (int, np.integer)):
            return type(self)(*[v//int(o) for v in self._v])
        return NotImplemented


class _Point(_Coord):
    _EXT = False

    def asExtent(self):
        return _kind(self.N, self.INT, True)(*self._v)

    def distanceSquared(self, o):
        return sum((a - b)**2 for a, b in zip(self._v, o._v))

    def shift(self, e):
        self._v = [a + b for a, b in zip(self._v, e._v)]

    def scale(self, f):
        self._v = [v*f for v in self._v]

    def __add__(self, o):
        if isinstance(o, _Extent) and o.N == self.N:
            return _kind(self.N, self.INT and o.INT, False)(*[a + b for a, b in zip(self._v, o._v)])
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, _Point) and o.N == self.N:
            return _kind(self.N, self.INT and o.INT, True)(*[a - b for a, b in zip(self._v, o._v)])
        if isinstance(o, _Extent) and o.N == self.N:
            return _kind(self.N, self.INT and o.INT, False)(*[a - b for a, b in zip(self._v, o._v)])
        return NotImplemented

    def __iadd__(self, o):
        if not isinstance(o, _Extent):
            return NotImplemented
        self._v = list(type(self)(self + o)._v)
        return self

    def __isub__(self, o):
        if not isinstance(o, _Extent):
            return NotImplemented
        self._v = list(type(self)(self - o)._v)
        return self


class Extent2I(_Extent):
    N, INT = 2, True


class Extent2D(_Extent):
    N, INT = 2, False


class Extent3I(_Extent):
    N, INT = 3, True


class Extent3D(_Extent):
    N, INT = 3, False


class Point2I(_Point):
    N, INT = 2, True


class Point2D(_Point):
    N, INT = 2, False


class Point3I(_Point):
    N, INT = 3, True


class Point3D(_Point):
    N, INT = 3, False


for _c in (Extent3I, Extent3D, Point3I, Point3D):
    _c.getZ = lambda self: self._v[2]
    _c.z = property(_c.getZ, lambda self, v: self.__setitem__(2, v))
for _c in (Point2I, Point2D, Point3I, Point3D, Extent2I, Extent2D, Extent3I, Extent3D):
    _c.Point = _kind(_c.N, _c.INT, False)
    _c.Extent = _kind(_c.N, _c.INT, True)

PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


class CoordinateExpr2(tuple):
    pass


def floor(e):
    return e.floor()


def ceil(e):
    return e.ceil()


def truncate(e):
    return e.truncate()


class Point:
    def __new__(cls, *args, dtype=None, dimensions=2):
        if dtype is None:
            vals = args[0] if len(args) == 1 and hasattr(args[0], "__len__") else args
            dtype = int if all(isinstance(v, (int, np.integer)) for v in [vals[i] for i in range(len(vals))]) else float
        return _kind(dimensions, dtype in (int, "I", np.int32), False)(*args)


class Extent:
    def __new__(cls, *args, dtype=None, dimensions=2):
        if dtype is None:
            vals = args[0] if len(args) == 1 and hasattr(args[0], "__len__") else args
            dtype = int if all(isinstance(v, (int, np.integer)) for v in [vals[i] for i in range(len(vals))]) else float
        return _kind(dimensions, dtype in (int, "I", np.int32), True)(*args)


# ---------------------------------------------------------------- intervals
class IntervalI:
    __slots__ = ("_min", "_size")

    def __init__(self, *args, min=None, max=None, size=None):
        if len(args) == 1 and isinstance(args[0], (IntervalI, IntervalD)):
            o = args[0]
            if isinstance(o, IntervalD):
                if o.isEmpty():
                    self._min, self._size = 0, 0
                else:
                    lo, hi = math.floor(o._min + 0.5), math.ceil(o._max - 0.5)
                    self._min, self._size = lo, hi - lo + 1
            else:
                self._min, self._size = o._min, o._size
            return
        if len(args) == 2:
            min, max = args
        if min is not None and max is not None:
            self._min, self._size = _index(min), _index(max) - _index(min) + 1
        elif min is not None and size is not None:
            self._min, self._size = _index(min), _index(size)
        elif max is not None and size is not None:
            self._min, self._size = _index(max) - _index(size) + 1, _index(size)
        else:
            self._min, self._size = 0, 0
        if self._size <= 0:
            self._min, self._size = 0, 0

    def getMin(self):
        return self._min

    def getMax(self):
        return self._min + self._size - 1

    def getBegin(self):
        return self._min

    def getEnd(self):
        return self._min + self._size

    def getSize(self):
        return self._size

    min = property(getMin)
    max = property(getMax)
    begin = property(getBegin)
    end = property(getEnd)
    size = property(getSize)

    def isEmpty(self):
        return self._size == 0

    def contains(self, o):
        if isinstance(o, IntervalI):
            return o.isEmpty() or (self.min <= o.min and o.max <= self.max and not self.isEmpty())
        return (not self.isEmpty()) and self.min <= o <= self.max

    __contains__ = contains

    def overlaps(self, o):
        return not self.isDisjointFrom(o)

    intersects = overlaps

    def isDisjointFrom(self, o):
        return self.isEmpty() or o.isEmpty() or self.max < o.min or o.max < self.min

    def dilatedBy(self, b):
        return IntervalI() if self.isEmpty() else IntervalI(min=self.min - b, max=self.max + b) \
            if self.size + 2*b > 0 else IntervalI()

    def erodedBy(self, b):
        return self.dilatedBy(-b)

    def shiftedBy(self, d):
        return IntervalI(self) if self.isEmpty() else IntervalI(min=self.min + d, size=self.size)

    def reflectedAbout(self, p):
        return IntervalI(self) if self.isEmpty() else IntervalI(min=2*p - self.max, max=2*p - self.min)

    def expandedTo(self, o):
        if not isinstance(o, IntervalI):
            o = IntervalI(min=o, max=o)
        if self.isEmpty():
            return IntervalI(o)
        if o.isEmpty():
            return IntervalI(self)
        return IntervalI(min=builtin_min(self.min, o.min), max=builtin_max(self.max, o.max))

    def clippedTo(self, o):
        if self.isDisjointFrom(o):
            return IntervalI()
        return IntervalI(min=builtin_max(self.min, o.min), max=builtin_min(self.max, o.max))

    def arange(self, step=1):
        return np.arange(self.begin, self.end, step)

    def range(self, step=1):
        return range(self.begin, self.end, step)

    def slice(self):
        return slice(self.begin, self.end)

    @staticmethod
    def hull(a):
        r = IntervalI()
        for x in a:
            r = r.expandedTo(x)
        return r

    def __eq__(self, o):
        return isinstance(o, IntervalI) and (self._min, self._size) == (o._min, o._size)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._min, self._size))

    def __reduce__(self):
        return (_mkIntervalI, (self._min, self._size))

    def __str__(self):
        return "[%d, %d]" % (self.min, self.max)

    def __repr__(self):
        return "IntervalI(min=%d, max=%d)" % (self.min, self.max)


import builtins as _b  # noqa: E402
builtin_min, builtin_max = _b.min, _b.max


def _mkIntervalI(mn, size):
    return IntervalI(min=mn, size=size)


class IntervalD:
    __slots__ = ("_min", "_max")

    def __init__(self, *args, min=None, max=None, center=None, size=None):
        if len(args) == 1 and isinstance(args[0], IntervalD):
            self._min, self._max = args[0]._min, args[0]._max
            return
        if len(args) == 1 and isinstance(args[0], IntervalI):
            o = args[0]
            self._min, self._max = (math.nan, math.nan) if o.isEmpty() else (o.min - 0.5, o.max + 0.5)
            return
        if len(args) == 2:
            min, max = args
        if min is not None and max is not None:
            pass
        elif min is not None and size is not None:
            max = min + size
        elif max is not None and size is not None:
            min = max - size
        elif center is not None and size is not None:
            min, max = center - 0.5*size, center + 0.5*size
        else:
            min = max = math.nan
        self._min, self._max = float(min), float(max)
        if not self._min < self._max and not self._min == self._max:
            self._min = self._max = math.nan

    def getMin(self):
        return self._min

    def getMax(self):
        return self._max

    def getSize(self):
        return 0.0 if self.isEmpty() else self._max - self._min

    def getCenter(self):
        return 0.5*(self._min + self._max)

    min = property(getMin)
    max = property(getMax)
    size = property(getSize)
    center = property(getCenter)

    def isEmpty(self):
        return math.isnan(self._min)

    def contains(self, o):
        if isinstance(o, IntervalD):
            return o.isEmpty() or (self.min <= o.min and o.max <= self.max)
        return self.min <= o <= self.max

    __contains__ = contains

    def overlaps(self, o):
        return not self.isDisjointFrom(o)

    def isDisjointFrom(self, o):
        return self.isEmpty() or o.isEmpty() or self.max < o.min or o.max < self.min

    def dilatedBy(self, b):
        return IntervalD(self) if self.isEmpty() else IntervalD(self.min - b, self.max + b)

    def erodedBy(self, b):
        return self.dilatedBy(-b)

    def shiftedBy(self, d):
        return IntervalD(self) if self.isEmpty() else IntervalD(self.min + d, self.max + d)

    def expandedTo(self, o):
        if not isinstance(o, IntervalD):
            if math.isnan(o):
                return IntervalD(self)
            o = IntervalD(o, o)
        if self.isEmpty():
            return IntervalD(o)
        if o.isEmpty():
            return IntervalD(self)
        return IntervalD(builtin_min(self.min, o.min), builtin_max(self.max, o.max))

    def clippedTo(self, o):
        if self.isDisjointFrom(o):
            return IntervalD()
        return IntervalD(builtin_max(self.min, o.min), builtin_min(self.max, o.max))

    def __eq__(self, o):
        return isinstance(o, IntervalD) and ((self.isEmpty() and o.isEmpty())
                                             or (self._min, self._max) == (o._min, o._max))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._min, self._max))

    def __repr__(self):
        return "IntervalD(min=%r, max=%r)" % (self.min, self.max)


# ---------------------------------------------------------------- boxes
class Box2I:
    Point = Point2I
    Extent = Extent2I

    class EdgeHandlingEnum(Enum):
        EXPAND = 0
        SHRINK = 1

    EXPAND = EdgeHandlingEnum.EXPAND
    SHRINK = EdgeHandlingEnum.SHRINK

    def __init__(self, *args, minimum=None, maximum=None, dimensions=None, corner=None, invert=True,
                 edgeHandling=None, other=None, x=None, y=None):
        args = list(args)
        if other is not None:
            args = [other] + args
        if x is not None and y is not None:
            args = [x, y]
        if corner is not None:
            minimum = corner
        if not args and minimum is None and maximum is None and dimensions is None:
            self._set(0, 0, 0, 0)
            return
        if args and isinstance(args[0], Box2I):
            o = args[0]
            self._set(o._x0, o._y0, o._w, o._h)
            return
        if args and isinstance(args[0], Box2D):
            eh = edgeHandling if edgeHandling is not None else (args[1] if len(args) > 1 else Box2I.EXPAND)
            o = args[0]
            if o.isEmpty():
                self._set(0, 0, 0, 0)
                return
            for v in (o._x0, o._y0, o._x1, o._y1):
                if not math.isfinite(v):
                    raise _pexExceptions.InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
            if eh == Box2I.EXPAND:
                x0, y0 = math.floor(o._x0 + 0.5), math.floor(o._y0 + 0.5)
                x1, y1 = math.ceil(o._x1 - 0.5), math.ceil(o._y1 - 0.5)
            else:
                x0, y0 = math.ceil(o._x0 + 0.5), math.ceil(o._y0 + 0.5)
                x1, y1 = math.floor(o._x1 - 0.5), math.floor(o._y1 - 0.5)
            self._setMM(x0, y0, x1, y1, False)
            return
        if len(args) >= 2 and isinstance(args[0], IntervalI):
            if args[0].isEmpty() or args[1].isEmpty():
                self._set(0, 0, 0, 0)
            else:
                self._set(args[0].min, args[1].min, args[0].size, args[1].size)
            return
        if args:
            minimum = args.pop(0)
        if args:
            a = args.pop(0)
            if isinstance(a, _Extent):
                dimensions = a
            else:
                maximum = a
        if args:
            invert = args.pop(0)
        if isinstance(minimum, _Extent) and dimensions is None:
            raise TypeError("incompatible constructor arguments")
        if dimensions is not None:
            d = Extent2I(dimensions)
            if minimum is not None:
                c = Point2I(minimum) if isinstance(minimum, (Point2I,)) or not isinstance(minimum, _Coord) else None
                if c is None:
                    raise TypeError("incompatible constructor arguments")
                x0, y0 = c._v
            else:
                c = Point2I(maximum)
                x0, y0 = c._v[0] - d._v[0] + 1, c._v[1] - d._v[1] + 1
            w, h = d._v
            if w == 0 or h == 0:
                self._set(0, 0, 0, 0)
                return
            if invert:
                if w < 0:
                    x0, w = x0 + w + 1, -w
                if h < 0:
                    y0, h = y0 + h + 1, -h
            if w <= 0 or h <= 0:
                self._set(0, 0, 0, 0)
            else:
                self._set(x0, y0, w, h)
            return
        if minimum is None or maximum is None:
            raise TypeError("incompatible constructor arguments")
        for c in (minimum, maximum):
            if isinstance(c, _Coord) and not isinstance(c, Point2I):
                raise TypeError("incompatible constructor arguments")
        a, b = Point2I(minimum), Point2I(maximum)
        self._setMM(a._v[0], a._v[1], b._v[0], b._v[1], invert)

    def _setMM(self, x0, y0, x1, y1, invert):
        if invert:
            if x1 < x0:
                x0, x1 = x1, x0
            if y1 < y0:
                y0, y1 = y1, y0
        if x1 < x0 or y1 < y0:
            self._set(0, 0, 0, 0)
        else:
            self._set(x0, y0, x1 - x0 + 1, y1 - y0 + 1)

    def _set(self, x0, y0, w, h):
        for v in (x0, y0, x0 + w - 1, y0 + h - 1):
            if not INT_MIN <= v <= INT_MAX:
                raise _pexExceptions.OverflowError("Box2I is too large")
        self._x0, self._y0, self._w, self._h = int(x0), int(y0), int(w), int(h)

    @staticmethod
    def makeCenteredBox(center, size):
        c, s = Point2D(center), Extent2I(size)
        corner = Point2I(Point2D(c.x - 0.5*s.x, c.y - 0.5*s.y))
        corner = Point2I(math.floor(c.x - 0.5*s.x + 0.5), math.floor(c.y - 0.5*s.y + 0.5))
        return Box2I(corner, s, False)

    # getters (all by value)
    def getMin(self):
        return Point2I(self._x0, self._y0)

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMax(self):
        return Point2I(self._x0 + self._w - 1, self._y0 + self._h - 1)

    def getMaxX(self):
        return self._x0 + self._w - 1

    def getMaxY(self):
        return self._y0 + self._h - 1

    def getBegin(self):
        return Point2I(self._x0, self._y0)

    def getBeginX(self):
        return self._x0

    def getBeginY(self):
        return self._y0

    def getEnd(self):
        return Point2I(self._x0 + self._w, self._y0 + self._h)

    def getEndX(self):
        return self._x0 + self._w

    def getEndY(self):
        return self._y0 + self._h

    def getDimensions(self):
        return Extent2I(self._w, self._h)

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getArea(self):
        return self._w*self._h

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCenterX(self):
        return self.getCenter().x

    def getCenterY(self):
        return self.getCenter().y

    def getCorners(self):
        return [Point2I(self.minX, self.minY), Point2I(self.maxX, self.minY),
                Point2I(self.maxX, self.maxY), Point2I(self.minX, self.maxY)]

    def getSlices(self):
        return (slice(self.beginY, self.endY), slice(self.beginX, self.endX))

    def getX(self):
        return IntervalI(min=self._x0, size=self._w)

    def getY(self):
        return IntervalI(min=self._y0, size=self._h)

    min = property(getMin)
    minX = property(getMinX)
    minY = property(getMinY)
    max = property(getMax)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    begin = property(getBegin)
    beginX = property(getBeginX)
    beginY = property(getBeginY)
    end = property(getEnd)
    endX = property(getEndX)
    endY = property(getEndY)
    dimensions = property(getDimensions)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    slices = property(getSlices)
    x = property(getX)
    y = property(getY)

    def isEmpty(self):
        return self._w <= 0 or self._h <= 0

    def contains(self, o, y=None):
        if y is not None:
            return (not self.isEmpty()) and self.minX <= o <= self.maxX and self.minY <= y <= self.maxY
        if isinstance(o, Box2I):
            return o.isEmpty() or (not self.isEmpty() and self.minX <= o.minX and self.minY <= o.minY
                                   and o.maxX <= self.maxX and o.maxY <= self.maxY)
        if isinstance(o, Point2D):
            raise TypeError("contains(): incompatible function arguments")
        o = Point2I(o)
        return (not self.isEmpty()) and self.minX <= o.x <= self.maxX and self.minY <= o.y <= self.maxY

    def __contains__(self, o):
        return self.contains(o)

    def overlaps(self, o):
        return not self.isDisjointFrom(o)

    intersects = overlaps

    def isDisjointFrom(self, o):
        return (self.isEmpty() or o.isEmpty() or self.maxX < o.minX or o.maxX < self.minX
                or self.maxY < o.minY or o.maxY < self.minY)

    # mutators (in place)
    def grow(self, buf):
        b = (buf, buf) if isinstance(buf, (int, np.integer)) else tuple(Extent2I(buf)._v)
        if self.isEmpty():
            return
        w, h = self._w + 2*int(b[0]), self._h + 2*int(b[1])
        if w <= 0 or h <= 0:
            self._set(0, 0, 0, 0)
        else:
            self._set(self._x0 - int(b[0]), self._y0 - int(b[1]), w, h)

    def shift(self, off):
        off = Extent2I(off)
        if not self.isEmpty():
            self._set(self._x0 + off.x, self._y0 + off.y, self._w, self._h)

    def flipLR(self, xextent):
        if not self.isEmpty():
            self._set(xextent - 1 - self.maxX, self._y0, self._w, self._h)

    def flipTB(self, yextent):
        if not self.isEmpty():
            self._set(self._x0, yextent - 1 - self.maxY, self._w, self._h)

    def include(self, o):
        if isinstance(o, Box2I):
            if o.isEmpty():
                return
            pts = [o.min, o.max]
        else:
            pts = [Point2I(o)]
        for p in pts:
            if self.isEmpty():
                self._set(p.x, p.y, 1, 1)
            else:
                self._setMM(builtin_min(self.minX, p.x), builtin_min(self.minY, p.y),
                            builtin_max(self.maxX, p.x), builtin_max(self.maxY, p.y), False)

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._set(0, 0, 0, 0)
            return
        self._setMM(builtin_max(self.minX, o.minX), builtin_max(self.minY, o.minY),
                    builtin_min(self.maxX, o.maxX), builtin_min(self.maxY, o.maxY), False)

    def dilatedBy(self, buf):
        r = Box2I(self)
        r.grow(buf)
        return r

    def erodedBy(self, buf):
        return self.dilatedBy(-buf)

    def shiftedBy(self, off):
        r = Box2I(self)
        r.shift(off)
        return r

    def expandedTo(self, o):
        r = Box2I(self)
        r.include(o)
        return r

    def clippedTo(self, o):
        r = Box2I(self)
        r.clip(o)
        return r

    def reflectedAboutX(self, x):
        return Box2I(self) if self.isEmpty() else Box2I(Point2I(2*x - self.maxX, self.minY), self.dimensions)

    def reflectedAboutY(self, y):
        return Box2I(self) if self.isEmpty() else Box2I(Point2I(self.minX, 2*y - self.maxY), self.dimensions)

    def swap(self, o):
        a, b = (self._x0, self._y0, self._w, self._h), (o._x0, o._y0, o._w, o._h)
        self._set(*b)
        o._set(*a)

    def __eq__(self, o):
        return isinstance(o, Box2I) and (self._x0, self._y0, self._w, self._h) == (o._x0, o._y0, o._w, o._h)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._x0, self._y0, self._w, self._h))

    def __copy__(self):
        return Box2I(self)

    def __deepcopy__(self, memo):
        return Box2I(self)

    def clone(self):
        return Box2I(self)

    def __reduce__(self):
        return (Box2I, (Point2I(self._x0, self._y0), Extent2I(self._w, self._h)))

    def toString(self):
        return str(self)

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        return "Box2I(corner=%r, dimensions=%r)" % (self.getMin(), self.getDimensions())


class Box2D:
    Point = Point2D
    Extent = Extent2D
    EPSILON = 2.220446049250313e-16*2
    INVALID = math.nan

    def __init__(self, *args, minimum=None, maximum=None, dimensions=None, corner=None, invert=True, other=None):
        args = list(args)
        if other is not None:
            args = [other] + args
        if corner is not None:
            minimum = corner
        nan = math.nan
        if not args and minimum is None and maximum is None and dimensions is None:
            self._x0 = self._y0 = self._x1 = self._y1 = nan
            return
        if args and isinstance(args[0], Box2D):
            o = args[0]
            self._x0, self._y0, self._x1, self._y1 = o._x0, o._y0, o._x1, o._y1
            return
        if args and isinstance(args[0], Box2I):
            o = args[0]
            if o.isEmpty():
                self._x0 = self._y0 = self._x1 = self._y1 = nan
            else:
                self._x0, self._y0 = o.minX - 0.5, o.minY - 0.5
                self._x1, self._y1 = o.maxX + 0.5, o.maxY + 0.5
            return
        if len(args) >= 2 and isinstance(args[0], IntervalD):
            self._x0, self._x1, self._y0, self._y1 = args[0].min, args[0].max, args[1].min, args[1].max
            return
        if args:
            minimum = args.pop(0)
        if args:
            a = args.pop(0)
            if isinstance(a, _Extent):
                dimensions = a
            else:
                maximum = a
        if args:
            invert = args.pop(0)
        if minimum is None or (maximum is None and dimensions is None):
            raise TypeError("incompatible constructor arguments")
        a = Point2D(minimum)
        if dimensions is not None:
            d = Extent2D(dimensions)
            b = Point2D(a.x + d.x, a.y + d.y)
        else:
            b = Point2D(maximum)
        x0, y0, x1, y1 = a.x, a.y, b.x, b.y
        if invert:
            if x1 < x0:
                x0, x1 = x1, x0
            if y1 < y0:
                y0, y1 = y1, y0
        self._x0, self._y0, self._x1, self._y1 = x0, y0, x1, y1
        if self._x0 >= self._x1 or self._y0 >= self._y1:
            self._x0 = self._y0 = self._x1 = self._y1 = nan

    @staticmethod
    def makeCenteredBox(center, size):
        c, s = Point2D(center), Extent2D(size)
        return Box2D(Point2D(c.x - 0.5*s.x, c.y - 0.5*s.y), s, False)

    def isEmpty(self):
        return math.isnan(self._x0)

    def getMin(self):
        return Point2D(self._x0, self._y0)

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMax(self):
        return Point2D(self._x1, self._y1)

    def getMaxX(self):
        return self._x1

    def getMaxY(self):
        return self._y1

    def getDimensions(self):
        return Extent2D(0.0, 0.0) if self.isEmpty() else Extent2D(self._x1 - self._x0, self._y1 - self._y0)

    def getWidth(self):
        return 0.0 if self.isEmpty() else self._x1 - self._x0

    def getHeight(self):
        return 0.0 if self.isEmpty() else self._y1 - self._y0

    def getArea(self):
        return self.getWidth()*self.getHeight()

    def getCenter(self):
        return Point2D((self._x0 + self._x1)*0.5, (self._y0 + self._y1)*0.5)

    def getCenterX(self):
        return (self._x0 + self._x1)*0.5

    def getCenterY(self):
        return (self._y0 + self._y1)*0.5

    def getX(self):
        return IntervalD(self._x0, self._x1)

    def getY(self):
        return IntervalD(self._y0, self._y1)

    def getCorners(self):
        return [Point2D(self._x0, self._y0), Point2D(self._x1, self._y0),
                Point2D(self._x1, self._y1), Point2D(self._x0, self._y1)]

    min = property(getMin)
    minX = property(getMinX)
    minY = property(getMinY)
    max = property(getMax)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    dimensions = property(getDimensions)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)
    x = property(getX)
    y = property(getY)

    def contains(self, o, y=None):
        if y is not None:
            return self._x0 <= o < self._x1 and self._y0 <= y < self._y1
        if isinstance(o, Box2D):
            return o.isEmpty() or (self._x0 <= o._x0 and self._y0 <= o._y0
                                   and o._x1 <= self._x1 and o._y1 <= self._y1)
        o = Point2D(o)
        return self._x0 <= o.x < self._x1 and self._y0 <= o.y < self._y1

    def __contains__(self, o):
        return self.contains(o)

    def overlaps(self, o):
        return not self.isDisjointFrom(o)

    intersects = overlaps

    def isDisjointFrom(self, o):
        return not (self._x1 > o._x0 and o._x1 > self._x0 and self._y1 > o._y0 and o._y1 > self._y0)

    def grow(self, buf):
        b = (float(buf), float(buf)) if _num(buf) else tuple(Extent2D(buf)._v)
        if self.isEmpty():
            return
        self._x0 -= b[0]
        self._x1 += b[0]
        self._y0 -= b[1]
        self._y1 += b[1]
        self._norm()

    def _norm(self):
        if not (self._x0 < self._x1 and self._y0 < self._y1):
            self._x0 = self._y0 = self._x1 = self._y1 = math.nan

    def shift(self, off):
        off = Extent2D(off)
        if not self.isEmpty():
            self._x0 += off.x
            self._x1 += off.x
            self._y0 += off.y
            self._y1 += off.y

    def flipLR(self, xextent):
        if not self.isEmpty():
            self._x0, self._x1 = xextent - self._x1, xextent - self._x0

    def flipTB(self, yextent):
        if not self.isEmpty():
            self._y0, self._y1 = yextent - self._y1, yextent - self._y0

    @staticmethod
    def _tweak(v):
        # as Box2D::_tweakMax: the upper bound is exclusive, so move it up a little
        if v < 0.0:
            return v*(1.0 - Box2D.EPSILON)
        if v > 0.0:
            return v*(1.0 + Box2D.EPSILON)
        return Box2D.EPSILON

    def include(self, o):
        if isinstance(o, Box2D):
            if o.isEmpty():
                return
            if self.isEmpty():
                self._x0, self._y0, self._x1, self._y1 = o._x0, o._y0, o._x1, o._y1
                return
            self._x0, self._y0 = builtin_min(self._x0, o._x0), builtin_min(self._y0, o._y0)
            self._x1, self._y1 = builtin_max(self._x1, o._x1), builtin_max(self._y1, o._y1)
            return
        p = Point2D(o)
        if self.isEmpty():
            self._x0, self._y0 = p.x, p.y
            self._x1, self._y1 = self._tweak(p.x), self._tweak(p.y)
            return
        if p.x < self._x0:
            self._x0 = p.x
        if p.y < self._y0:
            self._y0 = p.y
        if p.x >= self._x1:
            self._x1 = self._tweak(p.x)
        if p.y >= self._y1:
            self._y1 = self._tweak(p.y)

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._x0 = self._y0 = self._x1 = self._y1 = math.nan
            return
        self._x0, self._y0 = builtin_max(self._x0, o._x0), builtin_max(self._y0, o._y0)
        self._x1, self._y1 = builtin_min(self._x1, o._x1), builtin_min(self._y1, o._y1)
        self._norm()

    def dilatedBy(self, buf):
        r = Box2D(self)
        r.grow(buf)
        return r

    def erodedBy(self, buf):
        return self.dilatedBy(-buf)

    def shiftedBy(self, off):
        r = Box2D(self)
        r.shift(off)
        return r

    def expandedTo(self, o):
        r = Box2D(self)
        r.include(o)
        return r

    def clippedTo(self, o):
        r = Box2D(self)
        r.clip(o)
        return r

    def __eq__(self, o):
        return isinstance(o, Box2D) and ((self.isEmpty() and o.isEmpty())
                                         or (self._x0, self._y0, self._x1, self._y1)
                                         == (o._x0, o._y0, o._x1, o._y1))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._x0, self._y0, self._x1, self._y1))

    def __copy__(self):
        return Box2D(self)

    def __deepcopy__(self, memo):
        return Box2D(self)

    def clone(self):
        return Box2D(self)

    def __reduce__(self):
        return (_mkBox2D, (self._x0, self._y0, self._x1, self._y1))

    def __str__(self):
        return "(minimum=%s, maximum=%s)" % (self.getMin(), self.getMax())

    def __repr__(self):
        return "Box2D(minimum=%r, maximum=%r)" % (self.getMin(), self.getMax())


def _mkBox2D(x0, y0, x1, y1):
    r = Box2D()
    r._x0, r._y0, r._x1, r._y1 = x0, y0, x1, y1
    return r


BoxI, BoxD = Box2I, Box2D


class Box:
    def __new__(cls, *args, dtype=None, **kw):
        return (Box2I if dtype in (int, "I") else Box2D)(*args, **kw)


# ---------------------------------------------------------------- transforms
class LinearTransform:
    def __init__(self, m=None):
        self._m = np.eye(2) if m is None else np.array(m, dtype=float).reshape(2, 2)

    @staticmethod
    def makeScaling(s, t=None):
        return LinearTransform([[s, 0], [0, s if t is None else t]])

    @staticmethod
    def makeRotation(a):
        c, s = math.cos(float(a)), math.sin(float(a))
        return LinearTransform([[c, -s], [s, c]])

    def getMatrix(self):
        return self._m.copy()

    def inverted(self):
        return LinearTransform(np.linalg.inv(self._m))

    def computeDeterminant(self):
        return float(np.linalg.det(self._m))

    def __call__(self, p):
        v = self._m @ np.array([p[0], p[1]], dtype=float)
        return (Extent2D if isinstance(p, _Extent) else Point2D)(float(v[0]), float(v[1]))

    def __mul__(self, o):
        return LinearTransform(self._m @ o._m)


class AffineTransform:
    def __init__(self, linear=None, translation=None):
        if isinstance(linear, Extent2D) and translation is None:
            linear, translation = None, linear
        self._l = linear if isinstance(linear, LinearTransform) else LinearTransform(linear)
        self._t = Extent2D(translation) if translation is not None else Extent2D(0, 0)

    def getLinear(self):
        return self._l

    def getTranslation(self):
        return Extent2D(self._t)

    def inverted(self):
        i = self._l.inverted()
        t = i(Extent2D(self._t))
        return AffineTransform(i, -t)

    def __call__(self, p):
        r = self._l(p)
        return r if isinstance(p, _Extent) else r + self._t


# ---------------------------------------------------------------- sphere points
class SpherePoint:
    __slots__ = ("_lon", "_lat")

    def __init__(self, *args, longitude=None, latitude=None, units=None, vector=None, other=None):
        if vector is not None:
            args = (vector,)
        if other is not None:
            args = (other,)
        args = list(args)
        if longitude is not None:
            args.insert(0, longitude)
        if latitude is not None:
            args.append(latitude)
        if units is not None:
            args.append(units)
        if len(args) == 0:
            self._lon = self._lat = math.nan
            return
        if len(args) == 1:
            a = args[0]
            if isinstance(a, SpherePoint):
                self._lon, self._lat = a._lon, a._lat
                return
            if isinstance(a, _sphgeom.LonLat):
                lon, lat = a.getLon().asRadians(), a.getLat().asRadians()
                self._setLL(lon, lat)
                return
            if isinstance(a, (_sphgeom.Vector3d, _sphgeom.UnitVector3d)):
                x, y, z = a.x(), a.y(), a.z()
                if x == 0.0 and y == 0.0 and z == 0.0:
                    raise _pexExceptions.InvalidParameterError("SpherePoint undefined for zero vector")
                n = math.sqrt(x*x + y*y + z*z)
                if x == 0.0 and y == 0.0:
                    lon = 0.0
                else:
                    lon = Angle(math.atan2(y, x)).wrap()._val
                lat = math.atan2(z, math.hypot(x, y))
                self._lon, self._lat = lon, builtin_max(-HALFPI, builtin_min(HALFPI, lat)) if n == n else lat
                return
            raise TypeError("incompatible constructor arguments: %r" % (a,))
        if len(args) == 2:
            lon, lat = args
            if not isinstance(lon, Angle) or not isinstance(lat, Angle):
                raise TypeError("SpherePoint needs Angles, or numbers and units")
            self._setLL(lon._val, lat._val)
            return
        if len(args) == 3:
            lon, lat, u = args
            if not isinstance(u, AngleUnit):
                raise TypeError("incompatible constructor arguments")
            self._setLL(_real(lon)*u._val, _real(lat)*u._val)
            return
        raise TypeError("incompatible constructor arguments")

    def _setLL(self, lon, lat):
        if abs(lat) > HALFPI:
            raise _pexExceptions.InvalidParameterError(
                "Angle %s is not a valid latitude." % (Angle(lat),))
        self._lon, self._lat = Angle(lon).wrap()._val, lat

    def getLongitude(self):
        return Angle(self._lon)

    getRa = getLongitude

    def getLatitude(self):
        return Angle(self._lat)

    getDec = getLatitude

    def getVector(self):
        c = math.cos(self._lat)
        return _sphgeom.UnitVector3d(c*math.cos(self._lon), c*math.sin(self._lon), math.sin(self._lat))

    def _xyz(self):
        c = math.cos(self._lat)
        return np.array([c*math.cos(self._lon), c*math.sin(self._lon), math.sin(self._lat)])

    def getPosition(self, units=None):
        u = (units or radians)._val
        return Point2D(self._lon/u, self._lat/u)

    def toUnitVector(self):
        return self.getVector()

    def atPole(self):
        return abs(self._lat) >= HALFPI

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def bearingTo(self, other):
        dlon = other._lon - self._lon
        x = math.cos(self._lat)*math.sin(other._lat) - math.sin(self._lat)*math.cos(other._lat)*math.cos(dlon)
        y = math.sin(dlon)*math.cos(other._lat)
        return Angle(math.atan2(x, y)).wrap()   # from east towards north

    def separation(self, other):
        a, b = self, other
        havDDelta = math.sin((b._lat - a._lat)/2)**2
        havDAlpha = math.sin((b._lon - a._lon)/2)**2
        h = havDDelta + math.cos(a._lat)*math.cos(b._lat)*havDAlpha
        return Angle(2*math.asin(builtin_min(1.0, math.sqrt(h)))) if h == h else Angle(math.nan)

    def rotated(self, axis, amount):
        v, k = self._xyz(), axis._xyz()
        c, s = math.cos(amount._val), math.sin(amount._val)
        r = v*c + np.cross(k, v)*s + k*np.dot(k, v)*(1 - c)
        return SpherePoint(_sphgeom.Vector3d(*[float(t) for t in r]))

    def offset(self, bearing, amount):
        # bearing measured from east through north, as in lsst.geom
        phi = bearing._val
        lon, lat = self._lon, self._lat
        sl, cl, sb, cb = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
        ce, cn = math.cos(phi), math.sin(phi)
        ca, sa = math.cos(amount._val), math.sin(amount._val)
        return SpherePoint(_sphgeom.Vector3d(
            ca*cb*cl + sa*(-ce*sl - cn*sb*cl),
            ca*cb*sl + sa*(ce*cl - cn*sb*sl),
            ca*sb + sa*cn*cb))

    def getTangentPlaneOffset(self, other):
        a = self.bearingTo(other)._val
        s = self.separation(other)._val
        return (Angle(s*math.cos(a)), Angle(s*math.sin(a)))

    def __len__(self):
        return 2

    def __getitem__(self, i):
        if i in (0, -2):
            return Angle(self._lon)
        if i in (1, -1):
            return Angle(self._lat)
        raise IndexError("Index %r out of range" % (i,))

    def __eq__(self, o):
        return isinstance(o, SpherePoint) and self._lon == o._lon and self._lat == o._lat

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __copy__(self):
        return SpherePoint(self)

    def __deepcopy__(self, memo):
        return SpherePoint(self)

    def __reduce__(self):
        return (_mkSP, (self._lon, self._lat))

    def __str__(self):
        return "(%0.10f, %+0.10f)" % (math.degrees(self._lon), math.degrees(self._lat))

    def __repr__(self):
        return "SpherePoint(%.17g*degrees, %.17g*degrees)" % (math.degrees(self._lon), math.degrees(self._lat))


def _mkSP(lon, lat):
    r = SpherePoint()
    r._lon, r._lat = lon, lat
    return r


def averageSpherePoint(coords):
    v = sum((c._xyz() for c in coords), np.zeros(3))
    return SpherePoint(_sphgeom.Vector3d(*[float(t) for t in v]))
