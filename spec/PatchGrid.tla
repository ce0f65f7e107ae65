---------------------------- MODULE PatchGrid ----------------------------
(* The pixel geometry of one tract: patches and cells.                    *)
(* A box is <<x0, y0, w, h>>; it holds the pixels x0 <= x < x0+w etc.     *)
(* A grid is a record                                                     *)
(*   [nx, ny    : number of patches per axis,                             *)
(*    dx, dy    : patch inner dimensions,                                 *)
(*    kind      : "legacy" or "cells",                                    *)
(*    pb        : patch border (legacy option),                           *)
(*    cw, ch    : cell inner dimensions, cb : cell border,                *)
(*    nci       : cells per patch inner, ncb : cells in the patch border] *)
EXTENDS Num, Axis

------------------------------------------------------------------ (* boxes *)
EmptyBox == <<0, 0, 0, 0>>
IsEmpty(b) == b[3] <= 0 \/ b[4] <= 0
BoxMM(x0, y0, x1, y1) == IF x1 < x0 \/ y1 < y0 THEN EmptyBox ELSE <<x0, y0, x1 - x0 + 1, y1 - y0 + 1>>
MaxX(b) == b[1] + b[3] - 1
MaxY(b) == b[2] + b[4] - 1
Grow(b, g) == IF IsEmpty(b) THEN b ELSE BoxMM(b[1] - g, b[2] - g, MaxX(b) + g, MaxY(b) + g)
Clip(a, b) ==
  IF IsEmpty(a) \/ IsEmpty(b) THEN EmptyBox
  ELSE BoxMM(Max2(a[1], b[1]), Max2(a[2], b[2]), Min2(MaxX(a), MaxX(b)), Min2(MaxY(a), MaxY(b)))
Overlaps(a, b) == ~IsEmpty(Clip(a, b))
HasPixel(b, x, y) == b[1] <= x /\ x <= MaxX(b) /\ b[2] <= y /\ y <= MaxY(b)
Contains(a, b) == IsEmpty(b) \/ (HasPixel(a, b[1], b[2]) /\ HasPixel(a, MaxX(b), MaxY(b)))
Area(b) == b[3] * b[4]

---------------------------------------------------------------- (* patches *)
InnerDims(g) == IF g.kind = "cells" THEN <<g.cw * g.nci, g.ch * g.nci>> ELSE <<g.dx, g.dy>>
Border(g) == IF g.kind = "cells" THEN g.ncb * g.cw + g.cb ELSE g.pb
TractBox(g) == <<0, 0, g.nx * InnerDims(g)[1], g.ny * InnerDims(g)[2]>>
InnerBox(g, x, y) == <<AxFirst(InnerDims(g)[1], x), AxFirst(InnerDims(g)[2], y), InnerDims(g)[1], InnerDims(g)[2]>>
OuterBox(g, x, y) ==
  IF g.kind = "cells" THEN Grow(InnerBox(g, x, y), Border(g))
  ELSE Clip(Grow(InnerBox(g, x, y), Border(g)), TractBox(g))

NumPatches(g) == g.nx * g.ny
IsPatch(g, x, y) == 0 <= x /\ x < g.nx /\ 0 <= y /\ y < g.ny
IsPatchSeq(g, s) == 0 <= s /\ s < NumPatches(g)
PatchSeq(g, x, y) == AxSeq(g.nx, x, y)
PatchPair(g, s) == <<AxX(g.nx, s), AxY(g.nx, s)>>
PatchOrder(g) == [s \in 1..NumPatches(g) |-> PatchPair(g, s - 1)]

(* the patch whose inner box holds pixel (px,py); only for pixels of the tract *)
PatchOfPixel(g, px, py) == <<AxOf(InnerDims(g)[1], px), AxOf(InnerDims(g)[2], py)>>

---------------------------------------------------------------- (* cells *)
NumCells1(g) == IF g.kind = "cells" /\ g.nci > 0 THEN g.nci + 2 * g.ncb ELSE 0
IsCell(g, i, j) == 0 <= i /\ i < NumCells1(g) /\ 0 <= j /\ j < NumCells1(g)
IsCellSeq(g, s) == 0 <= s /\ s < NumCells1(g) * NumCells1(g)
CellSeq(g, i, j) == AxSeq(NumCells1(g), i, j)
CellPair(g, s) == <<AxX(NumCells1(g), s), AxY(NumCells1(g), s)>>
CellInner(g, x, y, i, j) ==
  <<AxCell(g.nci, g.ncb, g.cw, x, i), AxCell(g.nci, g.ncb, g.ch, y, j), g.cw, g.ch>>
CellOuter(g, x, y, i, j) == Grow(CellInner(g, x, y, i, j), g.cb)
CellOrder(g) == [s \in 1..(NumCells1(g) * NumCells1(g)) |-> CellPair(g, s - 1)]

------------------------------------------------- (* making the grid of a tract *)
(* number of patches of size inner that hold dim pixels *)
PatchesFor(dim, inner) == AxCount(inner, dim)
(* first pixel of the final box when the needed pixels are lo..lo+dim-1 *)
GrownMin(lo, dim, inner) == AxGrown(inner, lo, dim)

---------------------------------------------------------------- (* searches *)
(* Searching with the pixel bounding box q (a box, possibly empty):       *)
(* the patches that must be returned, and those that may be returned.     *)
MustFind(g, q) == {p \in (0..(g.nx - 1)) \X (0..(g.ny - 1)) : Overlaps(OuterBox(g, p[1], p[2]), q)}
MayFind(g, q) == {p \in (0..(g.nx - 1)) \X (0..(g.ny - 1)) : Overlaps(InnerBox(g, p[1], p[2]), Grow(q, Border(g)))}
(* a few patches among which all of MustFind are (checked in MCPatchGrid), for large tracts *)
Near(g, q) ==
  LET c == Clip(Grow(q, Border(g)), TractBox(g)) D == InnerDims(g) IN
  IF IsEmpty(c) THEN {}
  ELSE (Max2(0, c[1] \div D[1] - 1)..Min2(g.nx - 1, MaxX(c) \div D[1] + 1))
       \X (Max2(0, c[2] \div D[2] - 1)..Min2(g.ny - 1, MaxY(c) \div D[2] + 1))
MustFindNear(g, q) == {p \in Near(g, q) : Overlaps(OuterBox(g, p[1], p[2]), q)}
MayFindOne(g, q, p) == IsPatch(g, p[1], p[2]) /\ Overlaps(InnerBox(g, p[1], p[2]), Grow(q, Border(g)))
(* the same by arithmetic, as an algorithm: the range of patches touched by a box *)
PatchRange(g, q) ==
  LET c == Clip(q, TractBox(g)) IN
  IF IsEmpty(c) THEN {}
  ELSE LET lo == PatchOfPixel(g, c[1], c[2])
           hi == PatchOfPixel(g, MaxX(c), MaxY(c))
       IN (lo[1]..hi[1]) \X (lo[2]..hi[2])
IsRectangle(S) ==
  S = {} \/ LET xs == {p[1] : p \in S} ys == {p[2] : p \in S}
            IN S = (SetMin(xs)..SetMax(xs)) \X (SetMin(ys)..SetMax(ys))
==========================================================================
