-------------------------- MODULE MCPatchGrid ---------------------------
(* Exhaustive check of the patch and cell geometry over small tracts, and *)
(* generator of cases for the implementation (one case per state).        *)
(* The state machine walks: pick a grid -> pick a patch -> pick a pixel   *)
(* or a query box; every property of C01-C04, C15, C16 is an invariant.   *)
EXTENDS PatchGrid, Json
CONSTANTS MaxN,      \* patches per axis
          MaxD,      \* legacy patch size
          MaxB,      \* border
          MaxC,      \* cell size
          MaxNci, MaxNcb,
          MaxSpan,   \* cells across a patch, border included
          Mutant     \* "none", or the name of a deliberately wrong formula
VARIABLES g, pick
vars == <<g, pick>>

Legacy == [nx : 1..MaxN, ny : 1..MaxN, dx : 1..MaxD, dy : 1..MaxD, kind : {"legacy"}, pb : 0..MaxB,
           cw : {0}, ch : {0}, cb : {0}, nci : {0}, ncb : {0}]
Cells == [nx : 1..MaxN, ny : 1..MaxN, dx : {0}, dy : {0}, kind : {"cells"}, pb : {0},
          cw : 1..MaxC, ch : {0}, cb : 0..MaxB, nci : 1..MaxNci, ncb : 0..MaxNcb]
Square(c) == [c EXCEPT !.ch = c.cw]
Init == /\ \/ g \in Legacy
           \/ \E c \in {d \in Cells : d.nci + 2 * d.ncb <= MaxSpan} : g = Square(c)
        /\ pick = [t |-> "grid"]

Outer(x, y) == IF Mutant = "noclip" THEN Grow(InnerBox(g, x, y), Border(g)) ELSE OuterBox(g, x, y)
Seq0(x, y) == IF Mutant = "swapxy" THEN g.ny * x + y ELSE PatchSeq(g, x, y)
CellIn(x, y, i, j) == IF Mutant = "cellshift" THEN LET b == InnerBox(g, x, y) IN <<b[1] + i * g.cw, b[2] + j * g.ch, g.cw, g.ch>>
                      ELSE CellInner(g, x, y, i, j)

Patches == (0..(g.nx - 1)) \X (0..(g.ny - 1))
PickPatch == /\ pick.t = "grid"
             /\ \E p \in Patches : pick' = [t |-> "patch", x |-> p[1], y |-> p[2]]
             /\ UNCHANGED g
PickPixel == /\ pick.t = "grid"
             /\ \E px \in -1..MaxX(TractBox(g)) + 1, py \in -1..MaxY(TractBox(g)) + 1 :
                  pick' = [t |-> "pixel", x |-> px, y |-> py]
             /\ UNCHANGED g
PickQuery == /\ pick.t = "grid" /\ g.nx * InnerDims(g)[1] <= 4 /\ g.ny * InnerDims(g)[2] <= 4
             /\ \E x0 \in -2..MaxX(TractBox(g)) + 2, y0 \in -2..MaxY(TractBox(g)) + 2, w \in 0..3, h \in 1..2 :
                  pick' = [t |-> "query", x |-> x0, y |-> y0, w |-> w, h |-> h]
             /\ UNCHANGED g
PickCell == /\ pick.t = "patch"
            /\ \E i \in 0..(NumCells1(g) - 1), j \in 0..(NumCells1(g) - 1) :
                 pick' = [t |-> "cell", x |-> pick.x, y |-> pick.y, i |-> i, j |-> j]
            /\ UNCHANGED g
Next == PickPatch \/ PickPixel \/ PickQuery \/ PickCell
Spec == Init /\ [][Next]_vars

(* ---- C01: exact tiling ---- *)
Tiles == pick.t = "pixel" =>
  LET owners == {p \in Patches : HasPixel(InnerBox(g, p[1], p[2]), pick.x, pick.y)} IN
  IF HasPixel(TractBox(g), pick.x, pick.y)
  THEN /\ Cardinality(owners) = 1
       /\ owners = {PatchOfPixel(g, pick.x, pick.y)}        \* C15: findPatch
  ELSE owners = {}
(* ---- C02: outer boxes ---- *)
OuterOK == pick.t = "patch" =>
  LET o == Outer(pick.x, pick.y) i == InnerBox(g, pick.x, pick.y) IN
  /\ Contains(o, i)
  /\ g.kind = "legacy" => Contains(TractBox(g), o)
  /\ g.kind = "cells" => o[3] = i[3] + 2 * Border(g) /\ o[4] = i[4] + 2 * Border(g)
  /\ g.kind = "legacy" =>
       \A s \in {<<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>>} :
         \* the border is there on a side exactly when there is a tract on that side
         LET room == CASE s = <<-1, 0>> -> i[1] - o[1] [] s = <<1, 0>> -> MaxX(o) - MaxX(i)
                       [] s = <<0, -1>> -> i[2] - o[2] [] OTHER -> MaxY(o) - MaxY(i)
             free == CASE s = <<-1, 0>> -> i[1] [] s = <<1, 0>> -> MaxX(TractBox(g)) - MaxX(i)
                       [] s = <<0, -1>> -> i[2] [] OTHER -> MaxY(TractBox(g)) - MaxY(i)
         IN room = Min2(Border(g), free)
(* boxes are the products of what Axis says of either axis, where Unbounded has lemmas for all sizes *)
AxisOK == /\ pick.t = "patch" =>
               LET D == InnerDims(g) B == Border(g) o == OuterBox(g, pick.x, pick.y) IN
               /\ InnerBox(g, pick.x, pick.y) =
                    BoxMM(AxFirst(D[1], pick.x), AxFirst(D[2], pick.y), AxLast(D[1], pick.x), AxLast(D[2], pick.y))
               /\ g.kind = "legacy" =>
                    o = BoxMM(AxOuterFirst(D[1], B, pick.x), AxOuterFirst(D[2], B, pick.y),
                              AxOuterLast(g.nx, D[1], B, pick.x), AxOuterLast(g.ny, D[2], B, pick.y))
          /\ pick.t = "query" =>
               LET D == InnerDims(g) q == <<pick.x, pick.y, pick.w, pick.h>> c == Clip(Grow(q, Border(g)), TractBox(g)) IN
               PatchRange(g, Grow(q, Border(g))) =
                 IF IsEmpty(c) THEN {}
                 ELSE (AxOf(D[1], c[1])..AxOf(D[1], MaxX(c))) \X (AxOf(D[2], c[2])..AxOf(D[2], MaxY(c)))
(* ---- C03: cells ---- *)
CellsOK == pick.t = "cell" =>
  LET ci == CellIn(pick.x, pick.y, pick.i, pick.j)
      co == Grow(ci, g.cb)
      inPatch == pick.i \in g.ncb..(g.ncb + g.nci - 1) /\ pick.j \in g.ncb..(g.ncb + g.nci - 1)
  IN
  /\ Contains(OuterBox(g, pick.x, pick.y), co)
  /\ inPatch <=> Contains(InnerBox(g, pick.x, pick.y), ci)
  /\ inPatch \/ ~Overlaps(InnerBox(g, pick.x, pick.y), ci)
  /\ \A p \in Patches : \A i, j \in 0..(NumCells1(g) - 1) :
        LET other == CellIn(p[1], p[2], i, j) IN Overlaps(ci, other) => ci = other
  /\ \A i, j \in 0..(NumCells1(g) - 1) :
        CellIn(pick.x, pick.y, i, j) = ci => i = pick.i /\ j = pick.j
(* ---- C04: addressing ---- *)
Bijection == pick.t = "patch" =>
  /\ IsPatchSeq(g, Seq0(pick.x, pick.y))
  /\ PatchPair(g, Seq0(pick.x, pick.y)) = <<pick.x, pick.y>>
  /\ \A p \in Patches : Seq0(p[1], p[2]) = Seq0(pick.x, pick.y) => p = <<pick.x, pick.y>>
OrderOK == pick.t = "grid" =>
  /\ Range(PatchOrder(g)) = Patches /\ Distinct(PatchOrder(g))
  /\ \A k \in 1..NumPatches(g) : PatchSeq(g, PatchOrder(g)[k][1], PatchOrder(g)[k][2]) = k - 1
  /\ Distinct(CellOrder(g)) /\ Len(CellOrder(g)) = NumCells1(g) * NumCells1(g)
(* ---- C16: patch search: the algorithm finds all it must and only what it may ---- *)
SearchOK == pick.t = "query" =>
  LET q == <<pick.x, pick.y, pick.w, pick.h>>
      r == PatchRange(g, Grow(q, Border(g)))
  IN IsEmpty(q) \/ (MustFindNear(g, q) = MustFind(g, q) /\ MustFind(g, q) \subseteq r /\ r \subseteq MayFind(g, q) /\ IsRectangle(r))
(* ---- C01: rounding up to whole patches keeps the needed pixels, centred, minimal ---- *)
GrowOK == pick.t = "grid" =>
  \A dim \in 1..(MaxN * MaxD) : \A lo \in -3..3 :
    LET n == PatchesFor(dim, InnerDims(g)[1])
        m == GrownMin(lo, dim, InnerDims(g)[1])
        e == m + n * InnerDims(g)[1] - 1
    IN /\ m <= lo /\ lo + dim - 1 <= e
       /\ n * InnerDims(g)[1] - dim < InnerDims(g)[1]
       /\ (e - (lo + dim - 1)) - (lo - m) \in {0, 1}
(* every grid, printed as a case for the implementation *)
Export == pick.t = "grid" => PrintT("CASE " \o ToJson(g))
==========================================================================
