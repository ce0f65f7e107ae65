------------------------------- MODULE Rings -------------------------------
(* The rings pixelization: numbering, placement and inner regions.        *)
(* n = number of rings; a "half ring" is 90/(n+1) degrees, so ring r      *)
(* (0-based) lies between half rings 2r+1 and 2r+3 from the south pole.   *)
(* nums[r+1] = number of tracts of ring r.                                *)
EXTENDS Num

HalfRingEdge(n, h) == MulDiv(HALFTURN, h, 2 * (n + 1)) - QUARTER      \* declination in nano-turns
(* the half ring of the ring edge closest to the equator, as distance from the equator *)
EdgeDist(n, r) == LET a == Abs(2 * r + 1 - (n + 1)) b == Abs(2 * r + 3 - (n + 1)) IN Min2(a, b)
(* 2(n+1) cos(d), the number of ring sizes around ring r: whole part and fraction in 10^-8 *)
RingLenFix(n, r) ==
  LET c == CosNt(MulDiv(HALFTURN, EdgeDist(n, r), 2 * (n + 1)))
      hi == 2 * (n + 1) * (c \div 10000)
      rem == (hi % 10000) * 10000 + 2 * (n + 1) * (c % 10000)
  IN <<hi \div 10000 + rem \div ONE, rem % ONE>>
(* allowed numbers of tracts of ring r: floor + 1, with both values where the length is nearly whole *)
RingCounts(n, r) ==
  LET t == RingLenFix(n, r) f == t[2] eps == 100 * (n + 1) IN       \* CosNt is within 40 units
  {t[1] + 1} \cup (IF f >= ONE - eps THEN {t[1] + 2} ELSE {}) \cup (IF f <= eps THEN {t[1]} ELSE {})
RingSum(nums, r) == SumSeq(SubSeq(nums, 1, r))        \* tracts in the rings before ring r
NumTracts(nums) == SumSeq(nums) + 2

(* index -> <<ring, position in the ring>>; ring -1 and n are the caps *)
RingOfIndex(nums, ver, i) ==
  LET n == Len(nums) total == NumTracts(nums) IN
  IF i = 0 THEN <<-1, 0>>
  ELSE IF i = total - 1 THEN <<n, 0>>
  ELSE LET s == i - 1
           \* version 0: positions 1..num in each ring but the first, which starts at 0
           RECURSIVE Scan(_, _)
           Scan(q, before) ==
             LET after == before + nums[q + 1] IN
             IF (IF ver = 1 THEN s < after ELSE s <= after) THEN <<q, s - before>> ELSE Scan(q + 1, after)
       IN Scan(0, 0)
(* the tract with the inner region of position j (0..num-1) of ring r; version 0 lacks the first of the last ring *)
IndexOfRing(nums, ver, r, j) ==
  LET n == Len(nums) IN
  IF r = -1 THEN 0 ELSE IF r = n THEN NumTracts(nums) - 1
  ELSE IF ver = 1 \/ j # 0 \/ r = 0 THEN 1 + RingSum(nums, r) + j
  ELSE 1 + RingSum(nums, r + 1)
Missing(nums, ver, r, j) == ver = 0 /\ j = 0 /\ r = Len(nums) - 1 /\ r # 0
(* the other number of the same tract: version 0 has the first tract of the first ring twice *)
Same(nums, ver, i) == IF ver = 0 /\ Len(nums) > 0 /\ i = 1 + nums[1] /\ Len(nums) > 1 THEN 1 ELSE i

(* centre and inner region, in nano-turns *)
RingDec(n, r) == HalfRingEdge(n, 2 * r + 2)
TractRa(nums, ra0, r, j) == Mod1(ra0 + MulDiv(TURN, j % nums[r + 1], nums[r + 1]))
RaEdgeLo(nums, ra0, r, j) == Mod1(ra0 + MulDiv(TURN, (2 * (j % nums[r + 1]) + 2 * nums[r + 1] - 1) % (2 * nums[r + 1]), 2 * nums[r + 1]))
RaEdgeHi(nums, ra0, r, j) == Mod1(ra0 + MulDiv(TURN, (2 * (j % nums[r + 1]) + 1) % (2 * nums[r + 1]), 2 * nums[r + 1]))

(* rings and positions whose region holds a sky position, edges (within tol) belonging to both sides *)
RingsAt(n, lat, tol) ==
  {r \in -1..n : /\ (r = -1 \/ lat >= HalfRingEdge(n, 2 * r + 1) - tol)
                 /\ (r = n \/ lat <= HalfRingEdge(n, 2 * r + 3) + tol)}
(* lon and ra0 in nano-turns *)
PosAt(nums, ra0, r, lon, tol) ==
  IF r \in {-1, Len(nums)} THEN {0}
  ELSE LET N == nums[r + 1] d == Mod1(lon - ra0) IN
       {j \in 0..(N - 1) :
          LET lo == MulDiv(TURN, (2 * j + 2 * N - 1) % (2 * N), 2 * N)
              hi == MulDiv(TURN, 2 * j + 1, 2 * N)
          IN IF N = 1 THEN TRUE
             ELSE IF j = 0 THEN d >= lo - tol \/ d <= hi + tol
             ELSE lo - tol <= d /\ d <= hi + tol}
TractsAt(nums, ver, ra0, lon, lat, tol) ==
  {IndexOfRing(nums, ver, p[1], p[2]) :
     p \in UNION {{<<r, j>> : j \in PosAt(nums, ra0, r, lon, tol)} : r \in RingsAt(Len(nums), lat, tol)}}
=============================================================================
