"""Stand-in for the part of ``lsst.afw.geom`` that skymap uses: TAN-like SkyWcs.

Projections follow Calabretta & Greisen (2002) and are compared with
astropy.wcs in ``selftest.py``.  ``MODE`` says what happens to positions that
have no projection: "nan" returns NaN pixels, "domain" / "runtime" raise the
corresponding lsst.pex.exceptions error (both occur in the real library).
"""
import math

import numpy as np

import lsst.geom as geom
import lsst.pex.exceptions as pexExceptions

__all__ = ["SkyWcs", "makeSkyWcs", "makeCdMatrix", "MODE"]

MODE = {"bad": "nan"}
R2D = 180.0/math.pi
D2R = math.pi/180.0


def makeCdMatrix(scale, orientation=geom.Angle(0.0), flipX=False):
    xmult = 1.0 if flipX else -1.0
    o = orientation.asRadians()
    s = scale.asDegrees()
    # CD rows: intermediate world x (deg) and y; columns: pixel x and y
    return np.array([[math.cos(o)*s*xmult, math.sin(o)*s],
                     [-math.sin(o)*s*xmult, math.cos(o)*s]])


# ---- native spherical <-> plane (degrees), zenithal: theta0=90, others: theta0=0
def _zen_r(proj, th):
    """r(theta) in degrees for zenithal projections; None when undefined."""
    t = th
    if proj == "TAN":
        if t <= 1e-12:
            return None
        return R2D/math.tan(t)
    if proj == "STG":
        if t <= -HALF + 1e-12:
            return None
        return 2*R2D*math.tan((HALF - t)/2)
    if proj == "SIN":
        if t < 0:
            return None
        return R2D*math.cos(t)
    if proj == "ARC":
        return R2D*(HALF - t)
    if proj == "ZEA":
        return 2*R2D*math.sin((HALF - t)/2)
    raise KeyError(proj)


HALF = math.pi/2


def _zen_t(proj, r):
    if proj == "TAN":
        return math.atan2(R2D, r)
    if proj == "STG":
        return HALF - 2*math.atan(r/(2*R2D))
    if proj == "SIN":
        if r > R2D*(1 + 1e-13):
            return None
        return math.acos(min(1.0, r/R2D))
    if proj == "ARC":
        if r > 180.0*(1 + 1e-13):
            return None
        return HALF - r/R2D
    if proj == "ZEA":
        v = r/(2*R2D)
        if v > 1 + 1e-13:
            return None
        return HALF - 2*math.asin(min(1.0, v))
    raise KeyError(proj)


ZENITHAL = ("TAN", "STG", "SIN", "ARC", "ZEA")
OTHERS = ("CEA", "CAR", "MER", "SFL", "MOL", "AIT")


def _oth_fwd(proj, phi, th):
    """phi, theta (radians) -> x, y (degrees)."""
    if proj == "CEA":
        return phi*R2D, R2D*math.sin(th)
    if proj == "CAR":
        return phi*R2D, th*R2D
    if proj == "MER":
        if abs(th) >= HALF - 1e-15:
            return None
        return phi*R2D, R2D*math.log(math.tan((HALF + th)/2))
    if proj == "SFL":
        return phi*R2D*math.cos(th), th*R2D
    if proj == "MOL":
        g = th
        if abs(th) >= HALF - 1e-15:
            g = math.copysign(HALF, th)
        else:
            t = math.pi*math.sin(th)
            lo, hi = -HALF, HALF   # g + sin(2g)/2 = t/2 : monotone
            for _ in range(200):
                g = (lo + hi)/2
                if 2*g + math.sin(2*g) < t:
                    lo = g
                else:
                    hi = g
        return 2*math.sqrt(2)/math.pi*phi*R2D*math.cos(g), math.sqrt(2)*R2D*math.sin(g)
    if proj == "AIT":
        d = 1 + math.cos(th)*math.cos(phi/2)
        gm = R2D*math.sqrt(2/d)
        return 2*gm*math.cos(th)*math.sin(phi/2), gm*math.sin(th)
    raise KeyError(proj)


def _oth_inv(proj, x, y):
    x, y = x*D2R, y*D2R
    lim = 1 + 1e-12
    if proj == "CEA":
        if abs(y) > lim or abs(x) > math.pi*lim:
            return None
        return x, math.asin(max(-1.0, min(1.0, y)))
    if proj == "CAR":
        if abs(y) > HALF*lim or abs(x) > math.pi*lim:
            return None
        return x, y
    if proj == "MER":
        if abs(x) > math.pi*lim:
            return None
        return x, 2*math.atan(math.exp(y)) - HALF
    if proj == "SFL":
        if abs(y) > HALF*lim:
            return None
        c = math.cos(y)
        phi = 0.0 if c < 1e-14 else x/c
        if abs(phi) > math.pi*lim:
            return None
        return phi, y
    if proj == "MOL":
        s = y/math.sqrt(2)
        if abs(s) > lim:
            return None
        g = math.asin(max(-1.0, min(1.0, s)))
        c = math.cos(g)
        phi = 0.0 if c < 1e-14 else math.pi*x/(2*math.sqrt(2)*c)
        if abs(phi) > math.pi*lim:
            return None
        v = (2*g + math.sin(2*g))/math.pi
        return phi, math.asin(max(-1.0, min(1.0, v)))
    if proj == "AIT":
        u = 1 - (x/4)**2 - (y/2)**2
        if u < 0.5*(1 - 1e-12):
            return None
        z = math.sqrt(u)
        th = math.asin(max(-1.0, min(1.0, y*z)))
        phi = 2*math.atan2(z*x/2, 2*z*z - 1)
        return phi, th
    raise KeyError(proj)


class SkyWcs:
    """FITS-like WCS, 0-based pixel positions as in LSST."""

    def __init__(self, crpix, crval, cdMatrix, projection):
        self._crpix = (float(crpix[0]), float(crpix[1]))
        self._crval = geom.SpherePoint(crval)
        self._cd = np.array(cdMatrix, dtype=float).reshape(2, 2)
        self._icd = np.linalg.inv(self._cd)
        self._proj = str(projection)
        if self._proj not in ZENITHAL + OTHERS:
            raise pexExceptions.RuntimeError("Unsupported projection %r" % (projection,))
        self._M = tuple(tuple(float(v) for v in row) for row in self._rot())
        self._cdt = tuple(tuple(float(v) for v in row) for row in self._cd)
        self._icdt = tuple(tuple(float(v) for v in row) for row in self._icd)

    def _rot(self):
        """Matrix from celestial to native unit vectors."""
        a0, d0 = self._crval._lon, self._crval._lat
        if self._proj in ZENITHAL:
            ap, dp, php = a0, d0, (0.0 if d0 >= HALF else math.pi)   # default LONPOLE
        else:
            # theta0=0: the reference point is at native (0,0); LONPOLE default
            php = 0.0 if d0 >= 0 else math.pi
            ap, dp = self._celpole(a0, d0, php)
        def Rz(t):
            c, s = math.cos(t), math.sin(t)
            return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
        def Rx(t):
            c, s = math.cos(t), math.sin(t)
            return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
        # Euler rotation: celestial -> native
        return Rz(HALF - php) @ Rx(HALF - dp) @ Rz(ap + HALF)

    @staticmethod
    def _celpole(a0, d0, php):
        # Calabretta & Greisen eqs 8-10 with theta0 = 0, phi0 = 0, LATPOLE = +90
        s = math.sin(d0)
        cphi = math.cos(php)
        base = math.atan2(0.0, cphi)
        x = max(-1.0, min(1.0, s/math.sqrt(max(1e-300, 1 - (0.0 + math.sin(php)**2)))))
        cand = [base + math.acos(x), base - math.acos(x)]
        cand = [math.atan2(math.sin(c), math.cos(c)) for c in cand]
        cand = [c for c in cand if -HALF - 1e-12 <= c <= HALF + 1e-12]
        dp = max(cand)          # nearest to LATPOLE=90
        dp = max(-HALF, min(HALF, dp))
        if abs(math.cos(d0)) < 1e-14:
            ap = a0
        elif abs(dp - HALF) < 1e-14:
            ap = a0 + php - math.pi
        elif abs(dp + HALF) < 1e-14:
            ap = a0 - php
        else:
            sn = math.sin(php)/math.cos(d0)
            cs = (0.0 - math.sin(dp)*math.sin(d0))/(math.cos(dp)*math.cos(d0))
            ap = a0 - math.atan2(sn, cs)
        return ap, dp

    # -- accessors
    def getPixelOrigin(self):
        return geom.Point2D(*self._crpix)

    def getSkyOrigin(self):
        return geom.SpherePoint(self._crval)

    def getCdMatrix(self, *a):
        return self._cd.copy()

    def getPixelScale(self, *a):
        return geom.Angle(math.sqrt(abs(float(np.linalg.det(self._cd)))), geom.degrees)

    def getProjection(self):
        return self._proj

    isFits = True
    isFlipped = property(lambda self: float(np.linalg.det(self._cd)) > 0)

    def getTanWcs(self, pixel):
        raise NotImplementedError

    def copyAtShiftedPixelOrigin(self, shift):
        return SkyWcs((self._crpix[0] + shift[0], self._crpix[1] + shift[1]), self._crval, self._cd, self._proj)

    def copy(self):
        return SkyWcs(self._crpix, self._crval, self._cd, self._proj)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        return (SkyWcs, (self._crpix, self._crval, self._cd, self._proj))

    def __eq__(self, o):
        return isinstance(o, SkyWcs) and self._crpix == o._crpix and self._crval == o._crval \
            and np.array_equal(self._cd, o._cd) and self._proj == o._proj

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    # -- transformations
    def _fwd(self, px, py):
        """pixel -> (lon, lat) radians or None."""
        dx, dy = px - self._crpix[0], py - self._crpix[1]
        cd = self._cdt
        x = cd[0][0]*dx + cd[0][1]*dy
        y = cd[1][0]*dx + cd[1][1]*dy
        if not (math.isfinite(x) and math.isfinite(y)):
            return None
        if self._proj in ZENITHAL:
            r = math.hypot(x, y)
            th = _zen_t(self._proj, r)
            if th is None:
                return None
            phi = 0.0 if r == 0 else math.atan2(x, -y)
        else:
            pt = _oth_inv(self._proj, x, y)
            if pt is None:
                return None
            phi, th = pt
        c = math.cos(th)
        u0, u1, u2 = c*math.cos(phi), c*math.sin(phi), math.sin(th)
        M = self._M
        v = [M[0][k]*u0 + M[1][k]*u1 + M[2][k]*u2 for k in range(3)]
        lon = math.atan2(v[1], v[0])
        lat = math.atan2(v[2], math.hypot(v[0], v[1]))
        return lon, lat

    def _inv(self, lon, lat):
        if not (math.isfinite(lon) and math.isfinite(lat)):
            return None
        c = math.cos(lat)
        u0, u1, u2 = c*math.cos(lon), c*math.sin(lon), math.sin(lat)
        M = self._M
        v = [M[k][0]*u0 + M[k][1]*u1 + M[k][2]*u2 for k in range(3)]
        h = math.hypot(v[0], v[1])
        th = math.atan2(v[2], h)
        if self._proj in ZENITHAL:
            r = _zen_r(self._proj, th)
            if r is None:
                return None
            if h == 0:
                x = y = 0.0
                if r > 1e-9:
                    phi = 0.0
                    x, y = r*math.sin(phi), -r*math.cos(phi)
            else:
                x, y = r*v[1]/h, -r*v[0]/h
        else:
            phi = math.atan2(v[1], v[0]) if h > 0 else 0.0
            xy = _oth_fwd(self._proj, phi, th)
            if xy is None:
                return None
            x, y = xy
        icd = self._icdt
        return (icd[0][0]*x + icd[0][1]*y + self._crpix[0],
                icd[1][0]*x + icd[1][1]*y + self._crpix[1])

    @staticmethod
    def _bad():
        m = MODE["bad"]
        if m == "domain":
            raise pexExceptions.DomainError("position cannot be projected")
        if m == "runtime":
            raise pexExceptions.RuntimeError("position cannot be projected")

    def _p2s(self, px, py):
        r = self._fwd(px, py)
        if r is None:
            self._bad()
            return geom._mkSP(math.nan, math.nan)
        return geom.SpherePoint(geom.Angle(r[0]), geom.Angle(max(-HALF, min(HALF, r[1]))))

    def _s2p(self, sp):
        r = self._inv(sp._lon, sp._lat)
        if r is None:
            self._bad()
            return geom.Point2D(*{"nanx": (math.nan, 3.0), "nany": (3.0, math.nan), "inf": (math.inf, -math.inf)}.get(MODE["bad"], (math.nan, math.nan)))
        return geom.Point2D(float(r[0]), float(r[1]))

    def pixelToSky(self, *args):
        if len(args) == 2:
            return self._p2s(float(args[0]), float(args[1]))
        a = args[0]
        if isinstance(a, geom._Coord):
            return self._p2s(float(a[0]), float(a[1]))
        return [self._p2s(float(p[0]), float(p[1])) for p in a]

    def skyToPixel(self, *args):
        if len(args) == 2 and isinstance(args[0], geom.Angle):
            return self._s2p(geom.SpherePoint(*args))
        a = args[0]
        if isinstance(a, geom.SpherePoint):
            return self._s2p(a)
        return [self._s2p(p) for p in a]

    def pixelToSkyArray(self, x, y, degrees=False):
        out = [self._p2s(float(p), float(q)) for p, q in zip(np.atleast_1d(x), np.atleast_1d(y))]
        f = R2D if degrees else 1.0
        return np.array([o._lon*f for o in out]), np.array([o._lat*f for o in out])

    def skyToPixelArray(self, ra, dec, degrees=False):
        u = geom.degrees if degrees else geom.radians
        out = [self._s2p(geom.SpherePoint(float(p), float(q), u))
               for p, q in zip(np.atleast_1d(ra), np.atleast_1d(dec))]
        return np.array([o.x for o in out]), np.array([o.y for o in out])

    def __repr__(self):
        return "SkyWcs(crpix=%s, crval=%r, cd=%s, projection=%s)" % (self._crpix, self._crval,
                                                                   self._cd.tolist(), self._proj)

    __str__ = __repr__


def makeSkyWcs(crpix=None, crval=None, cdMatrix=None, projection="TAN", **kw):
    return SkyWcs(crpix, crval, cdMatrix, projection)
