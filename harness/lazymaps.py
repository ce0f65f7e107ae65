"""Subclasses of the maps that keep their tracts, whose making of tracts is recorded and may fail."""
from lsst.skymap import DiscreteSkyMap
from lsst.skymap.ringsSkyMap import RingsSkyMap
from lsst.skymap.healpixSkyMap import HealpixSkyMap

LOG = []       # (map, tract) whose making began
ARM = {}       # (id of a map, tract) -> [times left, exception, before or after the work]


class Stopped(BaseException):
    """As raised by an interrupt."""


class Failing:
    def generateTract(self, index):
        LOG.append((self, index))
        a = ARM.get((id(self), int(index)))
        if a is None or a[0] <= 0:
            return super().generateTract(index)
        a[0] -= 1
        if a[2]:
            super().generateTract(index)
        raise a[1]("not now")


class LazyDiscrete(Failing, DiscreteSkyMap):
    pass


class LazyRings(Failing, RingsSkyMap):
    pass


class LazyHealpix(Failing, HealpixSkyMap):
    pass


OF = {"discrete": LazyDiscrete, "rings": LazyRings, "healpix": LazyHealpix}
