------------------------------- MODULE MCRings -------------------------------
(* Exhaustive check of the rings numbering, placement and partition.      *)
EXTENDS Rings, Json
CONSTANTS MaxRings, Starts, Grid, Mutant
VARIABLES n, ver, ra0, pick
vars == <<n, ver, ra0, pick>>
(* where a count is ambiguous take the smaller *)
Nums == [r \in 1..n |-> SetMin(RingCounts(n, r - 1))]
Init == n \in 1..MaxRings /\ ver \in {0, 1} /\ ra0 \in Starts /\ pick = [t |-> "map"]
Index == /\ pick.t = "map" /\ \E i \in 0..(NumTracts(Nums) - 1) : pick' = [t |-> "index", i |-> i]
         /\ UNCHANGED <<n, ver, ra0>>
Position == /\ pick.t = "map"
            /\ \E a \in 0..(Grid - 1), b \in 0..Grid :
                 pick' = [t |-> "pos", lon |-> MulDiv(TURN, 2 * a + 1, 2 * Grid), lat |-> MulDiv(HALFTURN, b, Grid) - QUARTER]
            /\ UNCHANGED <<n, ver, ra0>>
Next == Index \/ Position
Spec == Init /\ [][Next]_vars

Ring(i) == IF Mutant = "v0as1" THEN RingOfIndex(Nums, 0, i) ELSE RingOfIndex(Nums, ver, i)
At(tol) == TractsAt(Nums, ver, ra0, pick.lon, pick.lat, tol)
(* C10: the numbering is a bijection with the positions (version 1), or the historical one *)
Numbering == pick.t = "index" =>
  LET p == Ring(pick.i) r == p[1] j == p[2] IN
  IF r \in {-1, n} THEN pick.i = (IF r = -1 THEN 0 ELSE NumTracts(Nums) - 1)
  ELSE /\ 0 <= r /\ r < n
       /\ ver = 1 => 0 <= j /\ j < Nums[r + 1] /\ IndexOfRing(Nums, 1, r, j) = pick.i
       /\ ver = 0 => 0 <= j /\ j <= Nums[r + 1] /\ (j = 0 => r = 0) /\ (r = n - 1 /\ n > 1 => 0 < j /\ j < Nums[r + 1])
                     /\ Same(Nums, 0, pick.i) = IndexOfRing(Nums, 0, r, j % Nums[r + 1])
(* every position of every ring has a number, except the missing one of version 0 *)
Onto == pick.t = "map" =>
  \A r \in 0..(n - 1) : \A j \in 0..(Nums[r + 1] - 1) :
    LET i == IndexOfRing(Nums, ver, r, j) IN
    IF Missing(Nums, ver, r, j) THEN i = NumTracts(Nums) - 1
    ELSE LET p == RingOfIndex(Nums, ver, i) IN p[1] = r /\ p[2] % Nums[r + 1] = j
(* C11: off the edges, exactly one region holds a position *)
Partition == pick.t = "pos" =>
  /\ At(2) # {}
  /\ ver = 1 => Cardinality(At(-2)) <= 1
  /\ (ver = 1 /\ Cardinality(At(2)) = 1) => At(-2) = At(2)
(* neighbouring regions share their edges *)
Edges == pick.t = "index" =>
  LET p == RingOfIndex(Nums, ver, pick.i) r == p[1] j == p[2] IN
  r \in 0..(n - 1) =>
    /\ CircDist(RaEdgeHi(Nums, ra0, r, j), RaEdgeLo(Nums, ra0, r, j + 1)) <= 1
    /\ CircDist(TractRa(Nums, ra0, r, j), RaEdgeLo(Nums, ra0, r, j)) <= HALFTURN \div Nums[r + 1] + 2
    /\ RingDec(n, r) > HalfRingEdge(n, 2 * r + 1) /\ RingDec(n, r) < HalfRingEdge(n, 2 * r + 3)
(* the rings are as full as they can be: tracts are no wider than the ring size at the widest edge *)
Width == pick.t = "map" => \A r \in 0..(n - 1) : RingCounts(n, r) # {} /\ \A c \in RingCounts(n, r) : c >= 1
(* symmetric about the equator *)
Symmetric == pick.t = "map" => \A r \in 0..(n - 1) : RingCounts(n, r) = RingCounts(n, n - 1 - r)
Export == pick.t = "map" => PrintT("CASE " \o ToJson([n |-> n, ver |-> ver, ra0 |-> ra0, nums |-> Nums]))
=============================================================================
