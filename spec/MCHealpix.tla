----------------------------- MODULE MCHealpix -----------------------------
(* The HEALPix specification checked on its own: both numberings are       *)
(* bijections, RING numbers rows from the north and eastwards, neighbours  *)
(* share corners, and positions lie in one pixel, or a few at edges.       *)
EXTENDS Healpix
CONSTANTS Sizes, Steps, Mutant
VARIABLE s
vars == <<s>>
Lats(k) == (k * (HALFTURN \div Steps)) - QUARTER + 1234
Init == s \in {[kind |-> "blk", ns |-> n, f |-> f] : n \in Sizes \cup {1}, f \in 0..11}      \* split the work over faces
Next == /\ s.kind = "blk"
        /\ \/ \E p \in {q \in Pixels(s.ns) : q[1] = s.f} : s' = [kind |-> "pix", ns |-> s.ns, p |-> p]
           \/ \E a \in {x \in 0..(Steps - 1) : x % 12 = s.f}, b \in 0..Steps : s' = [kind |-> "pos", ns |-> s.ns, a |-> a, b |-> b]
Spec == Init /\ [][Next]_vars

Ring(ns, p) == IF Mutant = "noshift" THEN RingIndex(ns, <<p[1], p[3], p[2]>>) ELSE RingIndex(ns, p)
At(ns, i, nest) == {p \in Pixels(ns) : Index(ns, nest, p) = i}
(* a pixel: its own numbers are unique, in range; RING order is by z, then longitude *)
Numbered == s.kind = "pix" =>
  /\ Ring(s.ns, s.p) \in 0..(NPix(s.ns) - 1) /\ NestIndex(s.ns, s.p) \in 0..(NPix(s.ns) - 1)
  /\ PixelOfNest(s.ns, NestIndex(s.ns, s.p)) = s.p
  /\ \A q \in Pixels(s.ns) : q # s.p =>
       /\ NestIndex(s.ns, q) # NestIndex(s.ns, s.p)
       /\ LET a == Centre(s.ns, s.p) b == Centre(s.ns, q) IN
          IF Abs(a[1] - b[1]) <= 2 THEN (Ring(s.ns, s.p) < Ring(s.ns, q)) = (a[2] < b[2])
          ELSE (Ring(s.ns, s.p) < Ring(s.ns, q)) = (a[1] > b[1])
(* every corner belongs to 3 or 4 pixels (2 to 4 at ns = 1, where faces meet) *)
SamePoint(u, v) == Abs(u[1] - v[1]) <= 4 /\ (u[3] \/ v[3] \/ CircDist(u[2], v[2]) <= 4)
Shared == s.kind = "pix" => \A c \in 1..4 :
  LET pt == Corners(s.ns, s.p)[c] IN
  Cardinality({q \in Pixels(s.ns) : \E d \in 1..4 : SamePoint(Corners(s.ns, q)[d], pt)}) \in 3..4
(* at every size a pixel is where its centre is, and within tolerance nowhere else *)
Fine == s.kind = "pos" => \A ns \in {16, 64, 256, 1024} :
  LET p == <<s.a % 12, (s.a * 7919 + s.b * 31) % ns, (s.b * 104729 + s.a * 17) % ns>>
      c == Centre(ns, p)
      \* latitude with this sine, by bisection
      RECURSIVE Bis(_, _, _)
      Bis(lo, hi, k) == IF k = 0 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF SinNt(mid) < c[1] THEN Bis(mid, hi, k - 1) ELSE Bis(lo, mid, k - 1)
  IN /\ ~c[3] => PixelsAt(ns, c[2], Bis(-QUARTER, QUARTER, 30), 100) = {p}
     /\ PixelOfNest(ns, NestIndex(ns, p)) = p /\ RingIndex(ns, p) \in 0..(NPix(ns) - 1)
(* a position is in at least one pixel; its row brackets the position *)
Located == s.kind = "pos" =>
  LET lon == s.a * (TURN \div Steps) + 4321 lat == Lats(s.b)
      S == PixelsAt(s.ns, lon % TURN, Min2(lat, QUARTER), 150)
  IN /\ S # {} /\ S \subseteq Pixels(s.ns)
     /\ Cardinality(S) <= 4
     /\ \A p \in S : LET z == SinNt(Min2(lat, QUARTER)) IN
          /\ z <= Corners(s.ns, p)[1][1] + 1000 /\ z >= Corners(s.ns, p)[3][1] - 1000
=============================================================================
