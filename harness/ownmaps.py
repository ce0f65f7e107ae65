"""Sky maps and tract builders as a user may write them: the same tracts as a DiscreteSkyMap."""
import struct

import lsst.geom as geom
import lsst.pex.config as pexConfig
from lsst.skymap import BaseSkyMap, PatchInfo
from lsst.skymap.tractInfo import ExplicitTractInfo
from lsst.skymap.cachingSkyMap import CachingSkyMap
from lsst.skymap.tractBuilder import tractBuilderRegistry, BaseTractBuilder, BaseTractBuilderConfig
from lsst.skymap.tractBuilder import LegacyTractBuilder, CellTractBuilder
from lsst.skymap.detail import Index2D


class OwnConfig(BaseSkyMap.ConfigClass):
    raList = pexConfig.ListField(dtype=float, default=[], doc="where tracts are")
    decList = pexConfig.ListField(dtype=float, default=[], doc="where tracts are")
    radiusList = pexConfig.ListField(dtype=float, default=[], doc="how large tracts are")


class OwnTract(ExplicitTractInfo):
    """A tract with a remark."""
    remark = "own"

    def __str__(self):
        return "OwnTract(%d)" % self.getId()


class Common:
    def makeTract(self, i):
        c = self.config
        where = geom.SpherePoint(c.raList[i], c.decList[i], geom.degrees)
        wcs = self._wcsFactory.makeWcs(crPixPos=geom.Point2D(0, 0), crValCoord=where)
        return OwnTract(i, self._tractBuilder, where, c.radiusList[i]*geom.degrees, c.tractOverlap*geom.degrees, wcs)

    def updateSha1(self, sha1):
        for v in (self.config.raList, self.config.decList, self.config.radiusList):
            sha1.update(struct.pack("<%dd" % len(v), *v))


class OwnListMap(Common, BaseSkyMap):
    """Makes all tracts at once, as the notes of BaseSkyMap say."""
    ConfigClass = OwnConfig

    def __init__(self, config=None):
        BaseSkyMap.__init__(self, config)
        for i in range(len(self.config.raList)):
            self._tractInfoList.append(self.makeTract(i))

    def __getstate__(self):
        return dict(config=self.config)

    def __setstate__(self, state):
        self.__init__(state["config"])


class OwnLazyMap(Common, CachingSkyMap):
    """Makes tracts on request, as the notes of CachingSkyMap say."""
    ConfigClass = OwnConfig

    def __init__(self, config, version=3):
        super().__init__(len(config.raList), config, version)

    def generateTract(self, index):
        return self.makeTract(index)


class OwnFastMap(OwnLazyMap):
    """Finds tracts in its own way."""

    def findTract(self, coord):
        v = coord.getVector()
        best = None
        for i in range(len(self)):
            c = geom.SpherePoint(self.config.raList[i], self.config.decList[i], geom.degrees).getVector()
            s = sum((v[k] - c[k])**2 for k in range(3))
            if best is None or s < best[0]:
                best = (s, i)
        return self[best[1]]


class OwnArgsMap(OwnLazyMap):
    """Has something besides its configuration, which is pickled with it."""

    def __init__(self, config, version=3, remark="none"):
        super().__init__(config, version)
        self.remark = remark

    def __reduce__(self):
        return (self.__class__, (self.config, self._version, self.remark))

    def updateSha1(self, sha1):
        super().updateSha1(sha1)
        sha1.update(self.remark.encode())


class OwnLastMap(OwnLazyMap):
    """Finds the last of the tracts that contain a position."""

    def findTract(self, coord):
        for i in range(len(self) - 1, -1, -1):
            if self[i].contains(coord):
                return self[i]
        return super().findTract(coord)


OF = {"last": OwnLastMap, "list": OwnListMap, "lazy": OwnLazyMap, "fast": OwnFastMap, "args": OwnArgsMap}


# ------------------------------------------------------------- tract builders
class OwnRowsConfig(BaseTractBuilderConfig):
    width = pexConfig.Field(dtype=int, default=100, doc="width of patches")
    height = pexConfig.Field(dtype=int, default=100, doc="height of patches")
    border = pexConfig.Field(dtype=int, default=10, doc="border of patches")


class OwnRows(BaseTractBuilder):
    """Patches as those of the legacy builder."""
    ConfigClass = OwnRowsConfig

    def __init__(self, config):
        super().__init__(config)
        self._patchInnerDimensions = geom.Extent2I(config.width, config.height)
        self._patchBorder = config.border

    def getPatchInfo(self, index, tractWcs):
        if not isinstance(index, Index2D):
            index = Index2D(*index) if hasattr(index, "__len__") else self.getPatchIndexPair(index)
        nx, ny = self._numPatches
        if not (0 <= index.x < nx and 0 <= index.y < ny):
            raise IndexError("no patch %s" % (index,))
        w, h = self._patchInnerDimensions
        inner = geom.Box2I(geom.Point2I(index.x*w, index.y*h), geom.Extent2I(w, h))
        outer = geom.Box2I(inner)
        outer.grow(self._patchBorder)
        outer.clip(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(nx*w, ny*h)))
        return PatchInfo(index=index, innerBBox=inner, outerBBox=outer,
                         sequentialIndex=self.getSequentialPatchIndexFromPair(index), tractWcs=tractWcs)

    def getPackedConfig(self, config):
        c = config.tractBuilder[config.tractBuilder.name]
        return struct.pack("<iiidd3sd", c.width, c.height, c.border, config.tractOverlap, config.pixelScale,
                           config.projection.encode("ascii"), config.rotation)


class Columns:
    """Numbers patches column by column."""

    def getSequentialPatchIndexFromPair(self, index):
        x, y = index
        return x*self._numPatches[1] + y

    def getPatchIndexPair(self, sequentialIndex):
        ny = self._numPatches[1]
        return Index2D(x=sequentialIndex//ny, y=sequentialIndex % ny)


class OwnColumns(Columns, OwnRows):
    pass


class LegacyColumns(Columns, LegacyTractBuilder):
    pass


class CellColumns(Columns, CellTractBuilder):
    pass


for _name, _cls in (("ownrows", OwnRows), ("owncolumns", OwnColumns), ("legacycolumns", LegacyColumns), ("cellscolumns", CellColumns)):
    if _name not in tractBuilderRegistry:
        tractBuilderRegistry.register(_name, _cls)


def config(cls, d, full, tb):
    """The configuration of an own map (tb: None or an own builder in place of the legacy one)."""
    c = cls.ConfigClass()
    top, btb, sub = full
    for k, v in top.items():
        setattr(c, k, v)
    if tb in ("legacycolumns", "cellscolumns"):
        c.tractBuilder.name = tb
        for k, v in sub.items():
            setattr(c.tractBuilder[tb], k, v)
    elif tb:
        c.tractBuilder.name = tb
        s = c.tractBuilder[tb]
        s.width, s.height = sub["patchInnerDimensions"]
        s.border = sub["patchBorder"]
    else:
        c.tractBuilder.name = btb
        for k, v in sub.items():
            setattr(c.tractBuilder[btb], k, v)
    return c
