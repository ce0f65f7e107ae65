----------------------------- MODULE Unbounded -----------------------------
(* Lemmas on the arithmetic of Axis for integers of any size: TLC checks    *)
(* the models on small tracts, rings and packers, Apalache shows here that  *)
(* size does not matter.  A state is any choice of the integers; the        *)
(* invariants are checked on all of them.  Invariants called Wrong... are   *)
(* mutants, each of which must be refuted (tools/negatives.sh).             *)
EXTENDS Axis
VARIABLES
  \* @type: Int;
  n,      \* patches along the axis, or things per row
  \* @type: Int;
  d,      \* pixels of a patch
  \* @type: Int;
  b,      \* border
  \* @type: Int;
  x,
  \* @type: Int;
  y,
  \* @type: Int;
  p,
  \* @type: Int;
  q
Init == /\ n \in Int /\ d \in Int /\ b \in Int /\ n >= 1 /\ d >= 1 /\ b >= 0
        /\ x \in Int /\ y \in Int /\ p \in Int /\ q \in Int
Next == UNCHANGED n /\ UNCHANGED d /\ UNCHANGED b /\ UNCHANGED x /\ UNCHANGED y /\ UNCHANGED p /\ UNCHANGED q

\* @type: (Int, Int) => Bool;
Has(k, u) == AxFirst(d, k) <= u /\ u <= AxLast(d, k)
\* @type: (Int, Int) => Bool;
OuterHas(k, u) == AxOuterFirst(d, b, k) <= u /\ u <= AxOuterLast(n, d, b, k)
\* @type: (Int) => Bool;
IsP(k) == 0 <= k /\ k < n
\* @type: (Int) => Bool;
Pixel(u) == 0 <= u /\ u < n * d

(* C01, C15: pixel p of a tract is in patch AxOf(p) and in no other *)
Tiles == Pixel(p) =>
         /\ IsP(AxOf(d, p)) /\ Has(AxOf(d, p), p)
         /\ (IsP(x) /\ Has(x, p)) => x = AxOf(d, p)
WrongTiles == Pixel(p) => Has(AxOf(d, p - 1), p)
(* C01: every pixel of a patch is a pixel of the tract *)
Inside == (IsP(x) /\ Has(x, p)) => Pixel(p)
(* C01: the tract holds the p pixels from q on that it was made for, in the middle *)
Grown == (p >= 1) =>
   LET k == AxCount(d, p) lo == AxGrown(d, q, p) hi == lo + k * d - 1 IN
   /\ k >= 1 /\ lo <= q /\ q + p - 1 <= hi /\ k * d - p < d
   /\ (hi - (q + p - 1)) - (q - lo) \in {0, 1}
WrongGrown == (p >= 1) => AxCount(d, p) * d > p
(* C02: outer boxes hold the inner ones and stay in the tract; the border is there unless the tract ends *)
Outer == IsP(x) =>
   /\ Has(x, p) => OuterHas(x, p)
   /\ OuterHas(x, p) => Pixel(p)
   /\ (Pixel(p) /\ AxFirst(d, x) - b <= p /\ p <= AxLast(d, x) + b) => OuterHas(x, p)
   /\ (0 < x /\ b <= d) => AxFirst(d, x) - AxOuterFirst(d, b, x) = b
   /\ (x < n - 1 /\ b <= d) => AxOuterLast(n, d, b, x) - AxLast(d, x) = b
WrongOuter == (0 < x /\ x < n) => AxFirst(d, x) - AxOuterFirst(d, b, x) = b
(* C02: the outer boxes of neighbours share 2b pixels *)
Shared == (IsP(x) /\ IsP(x + 1) /\ b <= d) =>
   AxOuterLast(n, d, b, x) - AxOuterFirst(d, b, x + 1) + 1 = 2 * b
(* C04: numbers and pairs are inverse, numbers are 0..n*d-1 (d rows of n) *)
Bijection == (IsP(x) /\ 0 <= y) =>
   /\ AxX(n, AxSeq(n, x, y)) = x /\ AxY(n, AxSeq(n, x, y)) = y
   /\ 0 <= AxSeq(n, x, y) /\ (y < d => AxSeq(n, x, y) < n * d)
Onto == (0 <= p /\ p < n * d) =>
   /\ IsP(AxX(n, p)) /\ 0 <= AxY(n, p) /\ AxY(n, p) < d /\ AxSeq(n, AxX(n, p), AxY(n, p)) = p
WrongOnto == (0 <= p /\ p < n * d) => AxSeq(n, AxY(n, p), AxX(n, p)) = p
(* C16, C17: searching the pixels p..q: grown by the border and cut to the tract, they touch a range of   *)
(* patches with every patch whose outer box has one of the pixels, and with no patch farther than that    *)
Lo == IF p - b < 0 THEN 0 ELSE p - b
Hi == IF q + b > n * d - 1 THEN n * d - 1 ELSE q + b
Found(k) == Lo <= Hi /\ AxOf(d, Lo) <= k /\ k <= AxOf(d, Hi)
SearchAll == (p <= q /\ IsP(x) /\ p <= y /\ y <= q /\ OuterHas(x, y)) => Found(x)
SearchOnly == (p <= q /\ Found(x)) => IsP(x) /\ AxFirst(d, x) <= q + b /\ AxLast(d, x) >= p - b
WrongSearch == (p <= q /\ IsP(x) /\ p <= y /\ y <= q /\ OuterHas(x, y)) => (AxOf(d, p) <= x /\ x <= AxOf(d, q))
(* C03: cells: n cells across a patch, b in its border, d pixels each *)
CellNext == AxCell(n, b, d, x, y + 1) = AxCell(n, b, d, x, y) + d
CellSame == AxCell(n, b, d, x, y + n) = AxCell(n, b, d, x + 1, y)
CellFirst == AxCell(n, b, d, x, b) = AxFirst(n * d, x) /\ AxCell(n, b, d, x, b + n) = AxLast(n * d, x) + 1
CellSpan == AxCell(n, b, d, x, 0) = AxFirst(n * d, x) - b * d
            /\ AxCell(n, b, d, x, n + 2 * b) = AxLast(n * d, x) + 1 + b * d
WrongCell == AxCell(n, b, d, x, n + b) = AxFirst(n * d, x)
(* C21: patch x of n, tract y of d and band p of q: distinct integers below n*d*q, and back *)
Packed(u, t, w) == u + n * t + w * (n * d)
PackBack == (0 <= x /\ x < n /\ 0 <= y /\ y < d /\ 0 <= p) =>
   /\ Packed(x, y, p) \div (n * d) = p
   /\ (Packed(x, y, p) % (n * d)) \div n = y
   /\ (Packed(x, y, p) % (n * d)) % n = x
   /\ 0 <= Packed(x, y, p) /\ (p < q => Packed(x, y, p) < n * d * q)
WrongPack == (0 <= x /\ x <= n /\ 0 <= y /\ y < d /\ 0 <= p) => (Packed(x, y, p) % (n * d)) \div n = y
(* C11: a ring of n tracts, right ascension p of a full turn of d: the tract nearest in right ascension, *)
(* counting from 0 and wrapping, is at most half a spacing away                                          *)
Nearest == (2 * p * n + d) \div (2 * d)
RingNearest == (0 <= p /\ p < d) =>
   /\ 0 <= Nearest /\ Nearest <= n
   /\ -d <= 2 * (p * n - Nearest * d) /\ 2 * (p * n - Nearest * d) < d
   /\ LET j == IF Nearest = n THEN 0 ELSE Nearest IN IsP(j)
RingOnly == (0 <= p /\ p < d /\ 0 <= x /\ x <= n /\ -d < 2 * (p * n - x * d) /\ 2 * (p * n - x * d) < d) => x = Nearest
WrongRing == (0 <= p /\ p < d) => IsP(Nearest)
(* C10: numbers of ring r start after those of the rings before: with p tracts before and n in the ring *)
RingNumbers == (p >= 0 /\ IsP(x) /\ IsP(y) /\ 1 + p + x = 1 + p + y) => x = y
============================================================================
