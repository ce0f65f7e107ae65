#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements)."""
import json, os
S = "python/lsst/skymap/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Patch inner regions exactly tile every tract",
  "The bounding box of every tract starts at pixel (0, 0) and is exactly num_patches times the configured patch "
  "inner dimensions in x and in y (for the cell builder: cell size times cells per inner patch). The inner box of patch (x, y) has exactly "
  "those dimensions and starts at (x, y) times them, so that every pixel of the tract lies in the inner box of exactly one patch.",
  ["inputs", "configurations"],
  "Every tract of every kind of sky map, both tract builders, any (also non-square) patch size, small or larger than the tract.",
  "The tests look at one or two configurations and at a handful of patches; none checks the tiling for arbitrary patch sizes, and they cannot run here at all.",
  ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
  [("round up to whole patches", "BaseTractBuilder.setupPatches"), ("inner box from index", "LegacyTractBuilder.getPatchInfo, CellTractBuilder.getPatchInfo"),
   ("origin at 0,0", "TractInfo._finalOrientation")],
  ["TractInfo.bbox, num_patches, patch_inner_dimensions", "PatchInfo.inner_bbox"],
  [("patch grid", "number of patches and patch size of a tract", "BaseTractBuilder")])
p("C02", "Patch outer regions are the inner regions plus the border",
  "With the legacy builder the outer box of a patch is its inner box grown by patchBorder pixels on all four sides and clipped to the tract, so there is no border at tract edges and no patch leaves the tract. "
  "With the cells builder the border is numCellsInPatchBorder times the cell size plus cellBorder, the outer box is grown by it on all sides and never clipped. "
  "The reported patch border of a tract is that number.",
  ["inputs", "configurations"], "Every patch of every tract, both builders, any border from zero to larger than the tract.",
  "The tests use the default border and compare with the same formula on few patches; border 0, borders larger than a patch and edge patches of non-square grids are not sampled.",
  ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
  [("grow and clip", "LegacyTractBuilder.getPatchInfo"), ("grow only", "CellTractBuilder.getPatchInfo"), ("border", "CellTractBuilder.__init__, getPatchBorder")],
  ["PatchInfo.outer_bbox", "TractInfo.patch_border"])
p("C03", "Cells form one regular grid over each patch and across patches",
  "A patch of a cell-based tract has (numCellsPerPatchInner + 2*numCellsInPatchBorder) cells per axis; cell (i, j) has the configured cell size and starts at the patch inner corner plus (i - numCellsInPatchBorder, j - numCellsInPatchBorder) cell sizes, "
  "its outer box is its inner box grown by cellBorder, so the cells that are not in the border tile the patch inner box, all cell outer boxes lie in the patch outer box and cells of neighbouring patches that overlap coincide exactly. "
  "A patch of a legacy tract has no cells: length zero, and asking for one raises IndexError.",
  ["inputs", "configurations"], "Every cell of every patch, any cell size, border, cells per patch and cells in the border (including 0 and 2 or more).",
  "The tests look at a few cells with 1 border cell; no test compares cells across patches or with 0 or 2 border cells.",
  ["patchInfo.py", "cellInfo.py", "tractBuilder.py"],
  [("cell box from index", "PatchInfo.getCellInfo"), ("cell count", "PatchInfo.__init__")],
  ["PatchInfo.getCellInfo / [] / iteration, num_cells, cell_inner_dimensions, cell_border", "CellInfo.inner_bbox, outer_bbox"])
p("C04", "Patch and cell addressing is a bijection and rejects bad indices",
  "Sequential indices number patches (and cells) row by row, x fastest, from 0 to len-1; converting pair to sequential index and back is the identity, every accessor form (Index2D, plain pair, sequential integer, [] or the get method) yields the same patch or cell, whose own index and sequential index agree, and iteration yields each exactly once in sequential order. "
  "Any pair or sequential index outside the grid, including negative ones, raises IndexError from the patch and cell accessors. "
  "The cell index conversions of a patch also raise IndexError when out of range, and the pair-to-sequential patch conversion raises ValueError for something that is not a pair.",
  ["inputs", "configurations"], "Every tract and patch of every map, every index in a window around the valid range, all accessor forms.",
  "The tests check a few patches of square grids, where swapping x and y or nx and ny goes unnoticed.",
  ["tractBuilder.py", "tractInfo.py", "patchInfo.py"],
  [("index conversion", "BaseTractBuilder.getSequentialPatchIndexFromPair/getPatchIndexPair; PatchInfo.getSequentialCellIndexFromPair/getCellIndexPair"),
   ("range check", "getPatchInfo, getCellInfo"), ("iteration", "TractInfo.__iter__, PatchInfo.__iter__")],
  ["TractInfo[...] and getPatchInfo", "PatchInfo[...] and getCellInfo", "getSequential*, get*IndexPair"])
p("C05", "Answers of a tract never depend on what was asked before",
  "What a tract or patch reports (boxes, patch counts, index conversions, patch lookup, WCS) is a function of the map's class, version, configuration and the tract id only. "
  "It does not change with the order in which tracts of this or another map are generated, queried, iterated, searched, pickled or copied in between.",
  ["histories", "configurations"], "Every interleaving of operations on several maps and tracts, in particular maps whose tracts have different sizes (discrete maps with different radii, dodecahedron, tracts generated lazily in any order).",
  "A unit test looks at tracts in one order; the failures need a second tract to be generated between obtaining a tract and using it.",
  ["tractBuilder.py", "tractInfo.py", "baseSkyMap.py", "cachingSkyMap.py"],
  [("per-tract patch geometry", "TractInfo.__init__ / BaseTractBuilder.setupPatches"), ("lazy cache", "CachingSkyMap.__getitem__")],
  ["TractInfo and PatchInfo accessors after arbitrary histories"],
  [("builder geometry", "patch grid the builder answers for", "BaseTractBuilder._numPatches"), ("tract cache", "tracts generated so far", "CachingSkyMap._tractCache")])
p("C06", "A sky map is a sequence of tracts numbered by position",
  "The length of a map equals its number of tracts; map[i] has tract id i for every i in 0..len-1, the same object on every access; iterating yields exactly these in order, any number of times, also while other iterations are in progress. "
  "An index at or beyond the length raises IndexError for every kind of map, and for lazily generated maps (discrete, rings, healpix) so does a negative index; a failed access leaves the map unchanged.",
  ["histories", "inputs", "configurations"], "All maps, access orders and indices, including the index equal to the length.",
  "The tests iterate once in order; they do not mix failed accesses, repeated accesses and lazy generation.",
  ["cachingSkyMap.py", "baseSkyMap.py"],
  [("cache", "CachingSkyMap.__getitem__"), ("list", "BaseSkyMap.__getitem__/__iter__/__len__")],
  ["len(map), map[i], iter(map)"],
  [("tract cache", "tract objects handed out", "CachingSkyMap._tractCache")])
p("C07", "Pickling a sky map preserves the map",
  "Unpickling a pickled map gives a map of the same class and version with an equal configuration, equal hash, the same number of tracts and identical tracts, patches and lookups, whatever was generated before pickling and for every pickle protocol and for copy.copy/copy.deepcopy. "
  "For dodecahedron and equatorial maps, state written by a newer major version (2.0 or more) is refused with RuntimeError instead of being misread.",
  ["histories", "configurations"], "All map kinds, both rings numbering versions, all configuration options, pickled at any point of the map's life.",
  "The tests pickle fresh maps of one configuration with the default version.",
  ["cachingSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "ringsSkyMap.py"],
  [("reduce with version", "CachingSkyMap.__reduce__"), ("state with version", "DodecaSkyMap/EquatSkyMap.__getstate__/__setstate__")],
  ["pickle.loads(pickle.dumps(map)), copy.deepcopy(map)"])
p("C08", "Equal maps have equal hashes and every geometry option counts",
  "Two maps of the same class whose configurations are equal compare equal and have the same Python hash, at any time, and the same 20-byte SHA1 at any time and in any process (the version of a rings map is not part of its configuration; 0.0 and -0.0 are different values). "
  "Changing one or several options that determine the geometry (class, patch or cell dimensions and borders, tract overlap, pixel scale, projection, rotation, tract builder, and each class's own options, including order and every element of lists) makes them unequal with a different SHA1, also where the changes leave a derived size (a patch with its borders, a total border, a product of dimensions) as it was, and != is always the negation of ==. "
  "Comparing with something that is not a sky map gives unequal without raising.",
  ["configurations", "histories"], "All map classes, all pairs of configurations differing in any geometry option.",
  "The tests compare a few pairs of configurations; a forgotten option in the hash of one class or builder is invisible to them.",
  ["baseSkyMap.py", "tractBuilder.py", "ringsSkyMap.py", "discreteSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "healpixSkyMap.py"],
  [("packed config", "LegacyTractBuilder.getPackedConfig, CellTractBuilder.getPackedConfig"), ("class specific", "updateSha1"), ("memo", "BaseSkyMap.getSha1")],
  ["getSha1(), hash(map), ==, !="],
  [("sha1 memo", "computed once", "BaseSkyMap._sha1")])
p("C09", "A sky map is immutable once built",
  "Building a map freezes its configuration: every later attempt to change an option, on the map's config or on the config object it was built from, raises and leaves map, hash and tracts unchanged. "
  "Modifying boxes returned by the bounding box accessor of a tract, or any list passed in or returned by a lookup, never changes later answers, and a search leaves the list it is given as it was.",
  ["histories", "configurations"], "All map kinds, all configuration options (including nested tract builder options and list elements), mutation attempts at any point of a history.",
  "No test mutates a configuration or a returned object and looks again.",
  ["baseSkyMap.py", "tractInfo.py"],
  [("freeze", "BaseSkyMap.__init__"), ("copy on return", "TractInfo.getBBox")],
  ["map.config assignments", "TractInfo.bbox, findPatchList, findTractPatchList results"])
p("C10", "Rings maps number and place their tracts as documented",
  "With numRings = n, ring size s = 180/(n+1) degrees: tract 0 is centred on the south pole, the last on the north pole, ring r (0-based from the south) is at declination -90 + s*(r+1) and has floor(360*cos(d)/s)+1 tracts, where d is the declination of the ring edge closest to the equator (in double precision, which decides where this is a whole number), evenly spaced in RA starting at raStart and numbered eastwards, ring after ring northwards; the ring index query returns exactly this numbering and raises IndexError outside it. "
  "With version 0 the historical numbering is kept: positions shift by one within each ring, so the first ring's first tract appears twice and the last ring's first tract is missing.",
  ["inputs", "configurations"], "All numRings (1 and up), raStart, both versions, every tract id and ids outside the range.",
  "The tests use two values of numRings and check a few hard-coded positions.",
  ["ringsSkyMap.py"],
  [("ring counts", "RingsSkyMap.__init__"), ("numbering", "RingsSkyMap.getRingIndices"), ("centres", "RingsSkyMap.generateTract")],
  ["len(map), getRingIndices, TractInfo.ctr_coord"])
p("C11", "Rings inner regions partition the sky and findTract follows them",
  "The RA/Dec ranges reported for the tracts of a version-1 rings map partition the sphere: every position off the region edges is in the range of exactly one tract, and findTract returns exactly that tract. "
  "The inner sky region of a tract is the box with this range and contains the tract centre; with version 0 findTract returns a tract whose range contains the position except where the missing first tract of the last ring would be.",
  ["inputs", "configurations"], "All numRings and raStart, all positions, including near poles, RA 0/360 wrap and ring edges (from either side).",
  "The tests sample tract centres and a few positions; partition is a statement about the whole sphere.",
  ["ringsSkyMap.py", "tractInfo.py"],
  [("dec to ring", "RingsSkyMap._decToRingNum"), ("ra to tract", "RingsSkyMap._raToTractNum"), ("range", "RingsSkyMap.getRaDecRange")],
  ["findTract, getRaDecRange, TractInfo.inner_sky_region"])
p("C12", "Vectorised tract lookup equals scalar lookup",
  "findTractIdArray returns one id per input position, equal to the id of findTract at that position, for every kind of map, in degrees and in radians, for arrays of any length including zero and one and for plain scalars. "
  "RA values outside 0..360 degrees mean the same as their value modulo 360, and the input arrays are not modified.",
  ["inputs", "configurations"], "All map kinds, both rings versions, arbitrary arrays of positions including poles, ring edges (both sides) and the RA wrap.",
  "The tests compare the two implementations on one random sample for one map.",
  ["ringsSkyMap.py", "baseSkyMap.py"],
  [("vectorised lookup", "RingsSkyMap.findTractIdArray"), ("loop", "BaseSkyMap.findTractIdArray")],
  ["findTractIdArray, findTract"])
p("C13", "findAllTracts finds exactly the tracts that contain a position",
  "For a rings map findAllTracts returns every tract whose pixel area contains the position, and only such tracts, each once; for version 1 in particular the tract given by findTract is among them when it contains the position. "
  "The duplicated first tract of version 0 counts as one.",
  ["inputs", "configurations"], "All numRings, overlaps (none to several ring widths), patch sizes, raStart, positions including the polar regions and the RA wrap.",
  "The tests look at positions near a few tract centres with small overlap, where a 3x3 neighbourhood is enough.",
  ["ringsSkyMap.py", "tractInfo.py"],
  [("candidate neighbourhood", "RingsSkyMap.findAllTracts"), ("membership", "TractInfo.contains")],
  ["findAllTracts, TractInfo.contains"])
p("C14", "findTract picks the tract whose inner region holds the position",
  "For discrete and equatorial maps findTract returns the tract whose centre is nearest on the sky; for dodecahedron maps the face whose centre is nearest; for healpix maps the tract of the pixel (of the configured nside and ordering) in which the position lies, whose own centre is found as itself. "
  "Only positions equidistant from two candidates leave a choice, and then one of them is returned.",
  ["inputs", "configurations"], "All maps of these kinds and all sky positions, including poles and the RA wrap.",
  "The tests use tract centres and a few directions.",
  ["baseSkyMap.py", "dodecaSkyMap.py", "detail/dodecahedron.py", "healpixSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py"],
  [("nearest centre", "BaseSkyMap.findTract"), ("nearest face", "Dodecahedron.getFaceInd"), ("healpix pixel", "HealpixSkyMap.findTract")],
  ["findTract"])
p("C15", "findPatch and contains agree with the patch grid",
  "A tract contains a sky position exactly when its pixel position rounds to a pixel of the tract box, and then findPatch returns the unique patch whose inner box holds this pixel. "
  "Otherwise, also when the position cannot be projected at all (the WCS fails or gives non-finite pixels), contains is false without raising, and findPatch raises LookupError when the position is off the tract or not projectable.",
  ["inputs", "configurations", "fault_sequences"], "All tracts, both builders, positions inside, on either side of every patch and tract edge, and far away (including the antipode), with a WCS that raises or returns NaN for unprojectable positions.",
  "The tests use positions well inside patches; edges, truncation of negative pixels and the WCS failure paths are not reached.",
  ["tractInfo.py"],
  [("patch of pixel", "TractInfo.findPatch"), ("membership", "TractInfo.contains"), ("WCS failure", "except clauses in both")],
  ["TractInfo.findPatch, contains"])
p("C16", "findPatchList returns every patch a region touches and nothing far off",
  "Given sky positions, findPatchList returns each patch whose outer region overlaps the pixel bounding box of the projectable positions, as a complete rectangle of patches each at most once, and no patch whose inner box does not overlap that bounding box grown by the patch border. "
  "It returns an empty sequence when there is no overlap with the tract, when there are no positions or none can be projected, and one unprojectable position does not hide the others.",
  ["inputs", "configurations", "fault_sequences"], "All tracts, both builders, any list of positions (empty, one, many, partly off the tract or unprojectable).",
  "The tests check rectangles well inside a tract; borders, partial overlap and unprojectable points are not combined.",
  ["tractInfo.py"],
  [("bounding box, grow, clip", "TractInfo.findPatchList"), ("WCS failure", "except clause")],
  ["TractInfo.findPatchList"])
p("C17", "Tract-and-patch searches are the union of per-tract searches",
  "findTractPatchList pairs each tract at most once with exactly the patches its findPatchList gives for the same positions, never with an empty list; for non-rings maps it lists every tract with a non-empty result, for rings maps those that contain at least one of the positions. "
  "findClosestTractPatchList does the same for exactly the tracts returned by findTract for the positions, each once, in order of first appearance.",
  ["inputs", "configurations"], "All map kinds, any list of positions, including positions spread over several tracts and repeated ones.",
  "The tests query one or two coordinates near tract centres.",
  ["baseSkyMap.py", "ringsSkyMap.py", "patchInfo.py"],
  [("loop over tracts", "BaseSkyMap.findTractPatchList"), ("loop over containing tracts", "RingsSkyMap.findTractPatchList"), ("dedupe", "findClosestTractPatchList, PatchInfo.__eq__")],
  ["findTractPatchList, findClosestTractPatchList"])
p("C18", "Tracts are placed, sized and oriented as configured",
  "The WCS of a tract has the configured projection, pixel scale and rotation (RA increasing towards -x at rotation 0), its reference sky position is the tract centre (for equatorial maps the same RA on the equator), and inverts: sky to pixel to sky is the identity. "
  "The tract box contains every vertex of the inner region padded by half the tract overlap, or for discrete and rings tracts the positions north, east, south and west of the centre at radius plus overlap (radius half the ring size for rings), is centred on that area to within a pixel, and is larger than needed by less than one patch in each dimension.",
  ["inputs", "configurations"], "All map kinds, projections, pixel scales, rotations, overlaps (including 0) and patch sizes.",
  "The tests check the vertices of a few default maps only, and no test looks at rotation, flip or that the tract is no larger than needed.",
  ["tractInfo.py", "tractBuilder.py", "detail/wcsFactory.py", "baseSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "ringsSkyMap.py"],
  [("minimum box", "TractInfo._minimumBoundingBox, ExplicitTractInfo._minimumBoundingBox"), ("shift to origin", "TractInfo._finalOrientation"), ("WCS", "WcsFactory")],
  ["TractInfo.wcs, bbox, ctr_coord, vertex_list, tract_overlap"])
p("C19", "Sky regions correspond to the pixel boxes",
  "The inner and outer sky polygons of patches and cells and the outer sky polygon of a tract are the convex polygons through the sky positions of the four outer corners of the corresponding pixel box (half a pixel beyond the outermost pixel centres); the property and method forms agree, and a WCS passed explicitly is the one used. "
  "For discrete and rings tracts the vertex list is those corners of the tract box, moved inside by 0.001 pixel; the inner sky polygon is the convex hull of the vertex list.",
  ["inputs", "configurations"], "All tracts, patches and cells of all map kinds.",
  "The tests compare with the same helper the code uses.",
  ["detail/utils.py", "tractInfo.py", "patchInfo.py", "cellInfo.py"],
  [("polygon from box", "makeSkyPolygonFromBBox"), ("vertices", "ExplicitTractInfo.__init__")],
  ["inner/outer_sky_polygon of tract, patch, cell; vertex_list"])
p("C20", "The dodecahedron is regular, ordered and locates faces correctly",
  "For both orientations the 12 face centres are unit vectors in opposite pairs with neighbours at the same angle (cosine 1/sqrt(5)), ordered by decreasing z and then increasing longitude (the first face off the poles being at longitude 0), with faces 0 and 11 (poles option) or two vertices (default) exactly on the poles; the five vertices of a face are distinct unit vectors, equidistant from its centre and in order around it, each shared by three faces, 20 in all. "
  "The face index of any non-zero vector of any length is the face whose centre is nearest, and changing a returned list of faces does not affect later answers.",
  ["inputs", "configurations"], "Both orientations, all faces, all directions and vector lengths.",
  "No running test covers the dodecahedron at all.",
  ["detail/dodecahedron.py", "detail/utils.py"],
  [("construction", "Dodecahedron.__init__"), ("vertices", "Dodecahedron.getVertices"), ("face index", "Dodecahedron.getFaceInd"), ("order", "_sortedVectorList")],
  ["Dodecahedron methods"])
p("C21", "Packed data IDs round-trip, are unique and fit the declared bits",
  "For every packer configuration and every data ID within its limits, unpack(pack(id)) is the id (including skymap and band), different ids have different packed values, and every packed value is non-negative and less than 2**maxBits. "
  "The value is patch + n_patches*tract, plus band index * n_patches*n_tracts when bands are included, whatever the order or gaps of the band mapping; maxBits is the smallest number of bits that holds all values.",
  ["inputs", "configurations"], "All n_tracts, n_patches, n_bands and band mappings to distinct non-negative indices (any order, non-contiguous, larger or smaller than n_bands), all non-negative ids; packers built directly, from a config or from dimensions.",
  "The tests pack one id per configuration with mappings in index order.",
  ["packers.py"],
  [("pack", "SkyMapDimensionPacker._pack"), ("unpack", "SkyMapDimensionPacker.unpack"), ("bits", "SkyMapDimensionPacker.maxBits")],
  ["pack, unpack, maxBits"],
  [("band mapping", "band name to index", "SkyMapDimensionPacker._bands")])
p("C22", "Packers reject what they cannot represent and default from the skymap",
  "Packing a tract or patch id at or above its limit, an unknown band, or a band whose index is at or above n_bands raises ValueError and never returns a value; dimensions other than {skymap, tract, patch} with or without band are rejected with ValueError. "
  "Unset limits come from the skymap record (tract_max, and patch_nx_max*patch_ny_max), an unset n_bands is the number of bands in the mapping, an unset mapping is the built-in list of bands, n_bands=0 means no band dimension (this is the config default), and a config field built for the packer passes every option through.",
  ["inputs", "configurations"], "All combinations of given and omitted arguments, via constructor, from_config and config field; ids around each limit.",
  "The tests cover four combinations and no rejected input.",
  ["packers.py"],
  [("checks", "SkyMapDimensionPacker._pack, __init__"), ("defaults", "SkyMapDimensionPacker.__init__, SkyMapDimensionPackerConfig"), ("config", "make_config_field, from_config")],
  ["constructor, from_config, make_config_field, pack, dimensions, maxBits"])
p("C23", "Registering a map writes exactly its tracts and patches",
  "After a successful first registration the butler holds one skymap record with the name, the SHA1, tract_max equal to the number of tracts and patch_nx_max/patch_ny_max equal to the largest patch counts over all tracts; one record per tract with its outer sky region; one record per patch with its sequential id, its x and y index and its outer sky region, patch ids being unique within the tract and below patch_nx_max*patch_ny_max; and the map itself stored under the name in the skymaps run. "
  "Every registered tract and patch can be packed by a packer whose limits come from the skymap record.",
  ["configurations", "inputs"], "All map kinds, including maps whose tracts have different numbers of patches.",
  "No test registers a map.",
  ["baseSkyMap.py", "tractInfo.py", "packers.py"],
  [("records", "BaseSkyMap.register")],
  ["BaseSkyMap.register with a butler; records and stored dataset"])
p("C24", "Registration is all-or-nothing, idempotent and refuses conflicts",
  "If any step of registration fails at any point, no skymap, tract or patch record and no stored map remain, and retrying later succeeds with the full content. "
  "Registering the same map again under the same name changes nothing, a map already registered under another name or a different map under the same name raises ConflictingDefinitionError and leaves the repository unchanged, and different maps under different names coexist.",
  ["crash_points", "fault_sequences", "histories"], "Every failing butler call position, every sequence of registrations of several maps under several names.",
  "No test registers a map, and crash points need fault injection.",
  ["baseSkyMap.py"],
  [("transaction", "BaseSkyMap.register"), ("sync", "syncDimensionData"), ("conflict translation", "except ConflictingDefinitionError")],
  ["repository content and exceptions after register"])
p("C25", "Whole-sky maps cover the whole sky",
  "For dodecahedron maps (default TAN projection, or overlap of at least the default 3.5 degrees), equatorial maps with a cylindrical projection (CEA, CAR, MER; within their declination range), healpix maps (default rotation of 45 degrees and overlap of at least a tenth of the pixel size) "
  "and version 1 rings maps (2 or more rings, overlap of at least a tenth of a ring, rotation a multiple of 90 degrees), every sky position is contained in the pixel area of the tract that findTract returns for it. "
  "So a position of the sky always has a tract and a patch.",
  ["inputs", "configurations"], "All such maps, all sky positions including poles and tract corners.",
  "The tests sample tract centres; coverage gaps are at tract corners.",
  ["ringsSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "healpixSkyMap.py", "tractInfo.py"],
  [("number of tracts per ring", "RingsSkyMap.__init__"), ("box holds vertices plus overlap", "TractInfo._minimumBoundingBox, ExplicitTractInfo._minimumBoundingBox")],
  ["findTract(coord).contains(coord), findTract(coord).findPatch(coord)"])
p("C26", "Equatorial, discrete, dodecahedron and healpix tracts are where configured",
  "Equatorial tract i covers RA from i*360/numTracts to (i+1)*360/numTracts and the configured declination range, its vertices being these four corners and its centre the middle; discrete tract i is centred at entry i of the RA and Dec lists with entry i of the radii. "
  "Dodecahedron tract i is centred on face i with the five vertices of that face; healpix tract i has as centre and vertices those of pixel i in the configured ordering with the declination sign reversed, so that position lookup and tract centres are consistent.",
  ["inputs", "configurations"], "All configurations of these maps, all tracts.",
  "The tests use a few configurations with hard-coded geometry.",
  ["equatSkyMap.py", "discreteSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py", "detail/utils.py"],
  [("placement", "constructors and generateTract")],
  ["TractInfo.ctr_coord, vertex_list, len(map)"])
p("C27", "Configurations are validated and every option reaches the map",
  "The registries offer exactly dodeca, equat, discrete, rings and healpix maps and legacy and cells builders, and a map built through them equals one built directly; the legacy shortcuts patchInnerDimensions and patchBorder read and write the legacy builder's options. "
  "Invalid configurations are rejected: lists of different lengths for discrete maps, non-square cells, numRings below 1, raStart outside [0, 360), wrong list lengths, a projection name that is not three letters, an unknown rings version. "
  "A configuration saved and loaded again yields an equal map, and unset options have their documented defaults.",
  ["configurations"], "All map kinds and builders, all options, valid and invalid values around each limit.",
  "The tests exercise few options and few invalid values.",
  ["skyMapRegistry.py", "baseSkyMap.py", "tractBuilder.py", "discreteSkyMap.py", "ringsSkyMap.py", "detail/wcsFactory.py", "__init__.py"],
  [("registry", "skyMapRegistry, tractBuilderRegistry"), ("validation", "validate methods and field checks")],
  ["config objects, registry, map constructors"])
p("C28", "Printed summaries describe the map faithfully",
  "logSkyMapInfo writes the number of tracts and then one line per tract, in order, with its id, the sky positions of the four corners of its box in degrees (counter-clockwise from the lower left) and its numbers of patches in x and y. "
  "The string forms of tracts, patches and cells show their id or index, and the patch form shows its boxes.",
  ["configurations", "inputs"], "All map kinds and tracts.",
  "No test reads the log.",
  ["baseSkyMap.py", "tractInfo.py", "patchInfo.py", "cellInfo.py"],
  [("summary", "BaseSkyMap.logSkyMapInfo"), ("string forms", "__str__/__repr__")],
  ["log messages, str(), repr()"])
p("C29", "Patches and cells are values, equal exactly when they describe the same",
  "Two patches compare equal exactly when their index, inner box, outer box, number of cells and cell border are the same, two cells exactly when index, inner box and outer box are the same, in both directions and whatever tract or map they come from, and != is always the negation; so no two patches (or cells) of one tract (or patch) are equal. "
  "A patch or cell made directly reports what it was given, its cells lie where its own inner box, cell size and border cells put them, and it is refused with RuntimeError when the outer box does not contain the inner box and with ValueError when the cell dimensions are not two values. "
  "An index is a pair that compares, hashes and unpacks like the tuple (x, y).",
  ["inputs", "configurations"], "All pairs of patches and of cells, of one tract, of two tracts, of two maps that differ in one option and made directly with arbitrary boxes.",
  "The tests compare a few patches of one tract; equality that forgets one field shows only on two objects that differ in this field alone.",
  ["patchInfo.py", "cellInfo.py", "detail/utils.py"],
  [("comparison", "PatchInfo.__eq__/__ne__, CellInfo.__eq__/__ne__"), ("validation", "PatchInfo.__init__, CellInfo.__init__"), ("cells", "PatchInfo.getCellInfo")],
  ["==, != of PatchInfo and CellInfo", "PatchInfo and CellInfo constructors and accessors", "Index2D"])
p("C30", "The sky geometry helpers are right for every input",
  "The WCS factory makes a WCS with the given reference pixel at the given sky position, the given FITS projection and pixel scale, its +y axis at the given rotation from north through east and its +x axis 90 degrees to the right of that (to the left when flipped), any number of times in any order, and refuses with RuntimeError a projection name that is not three letters. "
  "The position of a vector of any length is its direction; on a pole it has the given RA, and RuntimeError is raised when none is given. "
  "The sky polygon of a pixel box (integer or floating point) under a WCS is the one through the sky positions of its four corners.",
  ["inputs"], "All scales, projections, rotations, flips, reference pixels and positions; all vectors, including both poles; all boxes, including one pixel ones.",
  "No running test covers the helpers; the others use them only with the default rotation, never flipped, at one scale.",
  ["detail/wcsFactory.py", "detail/utils.py"],
  [("factory", "WcsFactory.__init__, makeWcs"), ("vector", "coordFromVec"), ("polygon", "makeSkyPolygonFromBBox")],
  ["WcsFactory.makeWcs, coordFromVec, makeSkyPolygonFromBBox"])
p("C31", "The hash of a configuration is the same for all time",
  "The SHA-1 hash of a sky map is that of the same bytes in every release, process and on every platform, because repositories store it: the name of the class, then, lowest byte first, the options of the tract builder (legacy: patch width, patch height, border; cells: cell width, cell height, cell border, cells per patch, border cells; 4 bytes each), "
  "the tract overlap, pixel scale (8 byte floats), projection (3 letters) and rotation, then the options of the class (dodeca: tracts on poles; equat: number of tracts, lowest and highest declination; discrete: all RAs, all Decs, all radii; rings: number of rings, first RA; healpix: log2 of nside, nested). "
  "The exact values given count, not rounded or normalised ones, and neither use of the map, nor how it came to be (configuration, configuration file, pickle), nor the version of a rings map changes it.",
  ["configurations", "histories"], "All configurations of all kinds of map with both tract builders, every value of every option, at any time in the life of a map, in any process.",
  "The tests compare hashes within one release only; a change of the layout makes every registered sky map clash with itself, and needs a reference that does not come from the code.",
  ["baseSkyMap.py", "tractBuilder.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py", "ringsSkyMap.py", "healpixSkyMap.py"],
  [("hash", "BaseSkyMap.getSha1"), ("builder options", "getPackedConfig"), ("class options", "updateSha1")],
  ["BaseSkyMap.getSha1"])
p("C32", "Threads that share a map or packer get the answers they would get alone",
  "Sky maps, their tracts and patches, and packers are conceptually immutable, whatever they keep for later: when several threads use one of them (or build and use others) at the same time, switching at any points, every operation gives the answer that it gives when it is alone, "
  "none fails or hangs, and afterwards the map gives the same answers as ever, with one object for each tract.",
  ["schedules", "configurations", "histories"], "All operations of maps, tracts, patches and packers; any number of threads, first and later uses; every place in the code at which a thread may be stopped.",
  "Whether a thread sees something half done depends on where threads switch, which a test does not choose; the caches fill on first use only.",
  ["cachingSkyMap.py", "baseSkyMap.py", "tractInfo.py", "tractBuilder.py", "ringsSkyMap.py", "healpixSkyMap.py", "discreteSkyMap.py", "packers.py"],
  [("lazy tracts", "CachingSkyMap.__getitem__"), ("lazy hash", "BaseSkyMap.getSha1"), ("own builder", "TractInfo.__init__"), ("lazy table of bands", "SkyMapDimensionPacker.unpack")],
  ["answers of maps, tracts, patches and packers in each thread"])
p("C33", "Registrations by several processes at once act as if one after the other",
  "When several processes register sky maps in the same repository at the same time, what each of them is told (success, or ConflictingDefinitionError), and what anybody sees of the repository in between and afterwards, is what it would be if the registrations happened one after the other in some order, "
  "each between its call and its return; nobody sees a part of a map, nobody waits for ever, and one that fails or whose process is killed at any point, while others wait for it, is registered wholly or not at all and keeps nobody else from registering.",
  ["schedules", "crash points", "histories"], "Repositories with an SQLite registry in local files; any number of processes, with butlers opened before or after; equal, conflicting and unrelated maps and names; failures and kills at any step.",
  "A race between processes depends on their timing: a test that registers twice in a row never has two registrations under way.",
  ["baseSkyMap.py"], [("register", "BaseSkyMap.register")], ["outcomes of registrations", "contents of the repository"])
p("C34", "A catalogue made patch by patch keeps every object exactly once",
  "Looking for the objects of a region with findTractPatchList, and having workers with pickled copies of the map list the objects in the outer box of each patch found, in any order and some repeatedly, marking as primary those in the patch's inner box for whose position findTract gives this tract, no object is primary twice, "
  "and every object whose pixel in the tract that findTract gives lies in this tract and between the pixels of the region's corners (for rings maps: of which the tract contains one) is primary exactly once: in the patch that findPatch gives, which findClosestTractPatchList lists, whose sky polygons contain it for TAN maps, in the tract that findTractIdArray gives and that is among findAllTracts.",
  ["inputs", "histories", "configurations"], "All kinds of maps; positions at edges of patches, borders, tracts and inner regions; any order of the work.",
  "This is how the pipelines use a map; it needs all lookups, boxes and copies to agree at every position, edges included.",
  ["baseSkyMap.py", "tractInfo.py", "patchInfo.py", "ringsSkyMap.py", "cachingSkyMap.py", "healpixSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py", "discreteSkyMap.py"],
  [("searches", "BaseSkyMap.findTractPatchList, findClosestTractPatchList, RingsSkyMap.findTractPatchList"), ("owner", "findTract, findTractIdArray, findAllTracts"), ("patch", "TractInfo.findPatch, findPatchList, PatchInfo boxes and polygons")],
  ["marks of objects in the catalogue"])
p("C35", "Tracts are made on request, once, and a failure leaves nothing behind",
  "A discrete, rings or healpix map (and a subclass that overrides generateTract) makes a tract when it is first asked for, directly, by an iteration or by a lookup, and keeps it: constructing, measuring, hashing, comparing, pickling and copying a map make none; m[i] makes tract i and no other, findTract and findTractIdArray of rings and healpix maps none but the tracts found; no tract is made twice; an index out of range raises IndexError and makes nothing. "
  "When making a tract fails, the caller gets that very exception at once, no other tract is made or lost, the map is not registered in part, and the map and its copies answer from then on as if nothing had happened: the tract is made when it is next asked for.",
  ["histories", "crash points", "configurations"], "All three kinds of map, with any exception (interrupts included) at any time, before or after the work; any sequence of requests, iterations, lookups, copies and registrations.",
  "A map of all the sky has tens of thousands of tracts, and a pipeline asks for a few; the tests never see a tract fail, nor which tracts are made.",
  ["cachingSkyMap.py", "baseSkyMap.py", "discreteSkyMap.py", "ringsSkyMap.py", "healpixSkyMap.py"],
  [("cache", "CachingSkyMap.__getitem__, __iter__, __len__, __reduce__"), ("making", "generateTract"), ("lookups", "findTract, findTractIdArray")],
  ["calls of generateTract", "answers and exceptions of maps"])
p("C36", "A user's own sky maps and tract builders get all that the package's do",
  "A map written as the notes of BaseSkyMap or CachingSkyMap say (tracts made at once, or in generateTract; pickled by __getstate__ or __reduce__; with updateSha1; perhaps with its own findTract, tract class, configuration, or further arguments), with a tract builder of the package or one registered by the user, answers every question as a DiscreteSkyMap of the same tracts does: lookups by position and region, arrays, tracts, patches, cells, polygons, log. "
  "It is as immutable, stable, picklable and comparable as those (C05, C06, C07, C09), registered and read back like those (C23, C24), and its hash tells it from maps of any other class, options or state. The numbers that its tract builder gives to patches are used everywhere: by patches, tracts and the rows in the repository, while iterations go row by row.",
  ["configurations", "histories", "inputs"], "Own subclasses of BaseSkyMap, CachingSkyMap, TractInfo and BaseTractBuilder, in any combination, with any options and use.",
  "The base classes are made to be extended; a change which suits the five maps of the package may break every other map, and no test has any.",
  ["baseSkyMap.py", "cachingSkyMap.py", "tractInfo.py", "tractBuilder.py", "patchInfo.py"],
  [("maps", "BaseSkyMap, CachingSkyMap"), ("tracts", "TractInfo, ExplicitTractInfo"), ("builders", "BaseTractBuilder, tractBuilderRegistry"), ("hash", "BaseSkyMap.getSha1, updateSha1, getPackedConfig")],
  ["answers of own maps", "records in the repository"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
