"""Compare the stand-in SkyWcs with astropy.wcs (trusted-base sanity check; not a property check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import substrate
substrate.install()
import math
import random
import numpy as np
import warnings
import lsst.geom as geom
import lsst.afw.geom as afwGeom
from astropy.wcs import WCS

rng = random.Random(7)
worst = 0.0
n = 0
for proj in afwGeom._m if hasattr(afwGeom, "_m") else afwGeom.ZENITHAL + afwGeom.OTHERS:
    for crval in [(0, 0), (30, 40), (300, -50), (10, 90), (77, -90), (181, -0.3), (12, 89.9)]:
        for rot in (0, 45, -100):
            scale = 0.2
            cd = afwGeom.makeCdMatrix(geom.Angle(scale, geom.degrees), geom.Angle(rot, geom.degrees))
            w = afwGeom.makeSkyWcs(geom.Point2D(10, 20), geom.SpherePoint(*crval, geom.degrees), cd, proj)
            a = WCS(naxis=2)
            a.wcs.ctype = ["RA---" + proj, "DEC--" + proj]
            a.wcs.crval = crval
            a.wcs.crpix = [11, 21]
            a.wcs.cd = cd
            a.wcs.set()
            for _ in range(40):
                px, py = rng.uniform(-90, 110), rng.uniform(-80, 120)
                s = w.pixelToSky(px, py)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    lon, lat = a.wcs_pix2world([[px, py]], 0)[0]
                if math.isnan(s._lon) or math.isnan(lon):
                    continue
                t = geom.SpherePoint(lon, lat, geom.degrees)
                d = s.separation(t).asDegrees()
                p = w.skyToPixel(s)
                q = a.wcs_world2pix([[s._lon/geom.degrees._val, s._lat/geom.degrees._val]], 0)[0]
                d2 = math.hypot(p.x - q[0], p.y - q[1])
                n += 1
                if d > 1e-7 or d2 > 1e-5:
                    print("MISMATCH", proj, crval, rot, px, py, d, d2)
                worst = max(worst, d)
print("compared", n, "worst", worst)
