------------------------------ MODULE Primary ------------------------------
(* A catalogue made patch by patch (C34): every worker takes one patch of   *)
(* one tract, finds the objects in its outer box, and marks as primary      *)
(* those in its inner box whose tract this is.                              *)
EXTENDS PatchGrid
(* X: the pixels to which a position may round: one, or several at an edge *)
InOuter(g, p, X) == {HasPixel(OuterBox(g, PatchPair(g, p)[1], PatchPair(g, p)[2]), x[1], x[2]) : x \in X}
InInner(g, p, X) == {HasPixel(InnerBox(g, PatchPair(g, p)[1], PatchPair(g, p)[2]), x[1], x[2]) : x \in X}
InTract(g, X) == {HasPixel(TractBox(g), x[1], x[2]) : x \in X}
PatchesAt(g, X) == {PatchSeq(g, PatchOfPixel(g, x[1], x[2])[1], PatchOfPixel(g, x[1], x[2])[2]) :
                      x \in {y \in X : HasPixel(TractBox(g), y[1], y[2])}}
(* every object of the region is kept once, no object twice *)
Once(prims, objs) == \A k \in objs : Cardinality(prims[k]) = 1
Never2(prims) == \A k \in DOMAIN prims : Cardinality(prims[k]) <= 1
=============================================================================
