"""Installs the stand-ins for the LSST packages that cannot be installed here."""
import importlib.util
import os
import sys
import types

_HERE = os.path.dirname(os.path.abspath(__file__))


def _load(name, filename):
    spec = importlib.util.spec_from_file_location(name, os.path.join(_HERE, filename))
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def install():
    """Make lsst.geom, lsst.afw.geom, lsst.pex.exceptions and (if the build did
    not make it) lsst.skymap.version importable."""
    import lsst
    if "lsst.geom" in sys.modules and getattr(sys.modules["lsst.geom"], "__standin__", False):
        return
    import lsst.pex
    ex = _load("lsst.pex.exceptions", "exceptions.py")
    lsst.pex.exceptions = ex
    exw = types.ModuleType("lsst.pex.exceptions.wrappers")
    exw.__dict__.update({k: v for k, v in ex.__dict__.items() if not k.startswith("__")})
    sys.modules["lsst.pex.exceptions.wrappers"] = exw
    g = _load("lsst.geom", "geom.py")
    g.__standin__ = True
    lsst.geom = g
    afw = types.ModuleType("lsst.afw")
    afw.__path__ = []
    sys.modules["lsst.afw"] = afw
    lsst.afw = afw
    ag = _load("lsst.afw.geom", "afwgeom.py")
    afw.geom = ag
    img = types.ModuleType("lsst.afw.image")
    sys.modules["lsst.afw.image"] = img
    afw.image = img
    try:
        have = any(os.path.exists(os.path.join(p, "skymap", "version.py")) for p in lsst.__path__)
    except Exception:
        have = False
    if not have:
        v = types.ModuleType("lsst.skymap.version")
        v.__version__ = "standin"
        v.__all__ = ("__version__",)
        sys.modules["lsst.skymap.version"] = v


def setBadPixelMode(mode):
    """What the stand-in WCS does with unprojectable positions."""
    sys.modules["lsst.afw.geom"].MODE["bad"] = mode
