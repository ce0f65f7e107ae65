"""Subclasses of the configuration classes of sky maps, as a user may write them."""
import lsst.pex.config as pexConfig
from lsst.skymap import skyMapRegistry as R


class DodecaSub(R["dodeca"].ConfigClass):
    label = pexConfig.Field(doc="what this map is for", dtype=str, default="mine")


class EquatSub(R["equat"].ConfigClass):
    label = pexConfig.Field(doc="what this map is for", dtype=str, default="mine")


class DiscreteSub(R["discrete"].ConfigClass):
    label = pexConfig.Field(doc="what this map is for", dtype=str, default="mine")


class RingsSub(R["rings"].ConfigClass):
    label = pexConfig.Field(doc="what this map is for", dtype=str, default="mine")


class HealpixSub(R["healpix"].ConfigClass):
    label = pexConfig.Field(doc="what this map is for", dtype=str, default="mine")


SUB = {"dodeca": DodecaSub, "equat": EquatSub, "discrete": DiscreteSub, "rings": RingsSub, "healpix": HealpixSub}
