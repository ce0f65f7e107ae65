--------------------------- MODULE MCIdentity ---------------------------
(* Two tracts with grids of the same or of different options; every pair  *)
(* of their patches (and cells) is compared (C29).                        *)
EXTENDS Identity, Json
CONSTANTS MaxN, MaxD, MaxB, Mutant
VARIABLES a, b, pick
vars == <<a, b, pick>>
Legacy == [nx : 1..MaxN, ny : 1..MaxN, dx : 1..MaxD, dy : 1..MaxD, kind : {"legacy"}, pb : 0..MaxB,
           cw : {0}, ch : {0}, cb : {0}, nci : {0}, ncb : {0}]
Cells == {[c EXCEPT !.ch = c.cw] : c \in
          [nx : 1..MaxN, ny : {1}, dx : {0}, dy : {0}, kind : {"cells"}, pb : {0},
           cw : 1..MaxD, ch : {0}, cb : 0..1, nci : 1..2, ncb : 0..1]}
Close(x, y) == x.kind = y.kind /\ Cardinality({f \in DOMAIN x : x[f] # y[f]}) <= (IF x.kind = "cells" THEN 2 ELSE 1)
Init == /\ a \in Legacy \cup Cells
        /\ \E o \in Legacy \cup Cells : Close(a, o) /\ b = o
        /\ pick = [t |-> "pair"]
Ps(g) == (0..(g.nx - 1)) \X (0..(g.ny - 1))
Next == /\ pick.t = "pair" /\ UNCHANGED <<a, b>>
        /\ \/ \E p \in Ps(a), q \in Ps(b) : pick' = [t |-> "patch", p |-> p, q |-> q]
           \/ /\ a.kind = "cells"
              /\ \E c \in (0..(NumCells1(a) - 1)) \X (0..(NumCells1(a) - 1)), d \in (0..(NumCells1(b) - 1)) \X (0..(NumCells1(b) - 1)) :
                   pick' = [t |-> "cell", p |-> <<0, 0>>, q |-> <<0, 0>>, c |-> c, d |-> d]
Spec == Init /\ [][Next]_vars
Eq(x, y) == CASE Mutant = "onlyindex" -> x.idx = y.idx
              [] Mutant = "noouter" -> [x EXCEPT !.outer = y.outer] = y
              [] OTHER -> Same(x, y)
DA == PatchDesc(a, pick.p[1], pick.p[2])
DB == PatchDesc(b, pick.q[1], pick.q[2])
(* within a tract no two patches are the same *)
WithinTract == (pick.t = "patch" /\ a = b) => (Eq(DA, DB) <=> pick.p = pick.q)
(* with different options that matter no two patches at all are the same; *)
(* with the same options only the tract edge tells them apart             *)
AcrossTracts == pick.t = "patch" =>
  LET opts(g) == <<g.kind, InnerDims(g), NumCells1(g), g.cb>> IN
  Eq(DA, DB) => pick.p = pick.q /\ DA.inner = DB.inner /\ DA.outer = DB.outer
                /\ NumCells1(a) = NumCells1(b) /\ a.cb = b.cb /\ opts(a) = opts(b)
SameEdge == (pick.t = "patch" /\ a.kind = "legacy" /\ pick.p = pick.q /\ [a EXCEPT !.nx = b.nx, !.ny = b.ny] = b) =>
  (Eq(DA, DB) <=> MaxX(DA.outer) = MaxX(DB.outer) /\ MaxY(DA.outer) = MaxY(DB.outer))
CellsToo == pick.t = "cell" =>
  LET x == CellDesc(a, 0, 0, pick.c[1], pick.c[2]) y == CellDesc(b, 0, 0, pick.d[1], pick.d[2]) IN
  /\ (a = b) => (Eq(x, y) <=> pick.c = pick.d)
  /\ Eq(x, y) => x.inner = y.inner /\ a.cb = b.cb
Export == pick.t = "pair" => PrintT("CASE " \o ToJson([a |-> a, b |-> b]))
=========================================================================
