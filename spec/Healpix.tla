------------------------------ MODULE Healpix ------------------------------
(* The HEALPix pixelization, from its definition: 12 base faces of         *)
(* ns x ns pixels; grid coordinates of a face are in half pixels, X, Y in  *)
(* 0..2*ns, so that pixel (ix, iy) has its centre at (2ix+1, 2iy+1).       *)
(* ns is a power of two, at most 1024.                                     *)
EXTENDS Num

JrLL == <<2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4>>
JpLL == <<1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7>>
NPix(ns) == 12 * ns * ns
Pixels(ns) == (0..11) \X (0..(ns - 1)) \X (0..(ns - 1))     \* <<face, ix, iy>>

RECURSIVE Interleave(_, _)
Interleave(x, y) == IF x = 0 /\ y = 0 THEN 0
                    ELSE (x % 2) + 2 * (y % 2) + 4 * Interleave(x \div 2, y \div 2)
NestIndex(ns, p) == p[1] * ns * ns + Interleave(p[2], p[3])
RingIndex(ns, p) ==
  LET jr == JrLL[p[1] + 1] * ns - p[2] - p[3] - 1
      north == jr < ns
      south == jr > 3 * ns
      nr == IF north THEN jr ELSE IF south THEN 4 * ns - jr ELSE ns
      before == IF north THEN 2 * nr * (nr - 1)
                ELSE IF south THEN NPix(ns) - 2 * (nr + 1) * nr
                ELSE 2 * ns * (ns - 1) + (jr - ns) * 4 * ns
      ks == IF north \/ south THEN 0 ELSE (jr - ns) % 2
      jp == (JpLL[p[1] + 1] * nr + p[2] - p[3] + 1 + ks) \div 2
  IN before + (IF jp > 4 * ns THEN jp - 4 * ns ELSE IF jp < 1 THEN jp + 4 * ns ELSE jp) - 1
Index(ns, nest, p) == IF nest THEN NestIndex(ns, p) ELSE RingIndex(ns, p)
PixelOf(ns, nest, i) == CHOOSE p \in Pixels(ns) : Index(ns, nest, p) = i

PixelOfNest(ns, i) ==
  LET f == i \div (ns * ns)
      RECURSIVE Even(_)
      Even(v) == IF v = 0 THEN 0 ELSE (v % 2) + 2 * Even(v \div 4)
      r == i % (ns * ns)
  IN <<f, Even(r), Even(r \div 2)>>

(* position of a point of a face: <<z in 10^-8, longitude in nano-turns, is it a pole>> *)
RowOf(ns, f, X, Y) == JrLL[f + 1] * 2 * ns - X - Y
Point(ns, f, X, Y) ==
  LET m == 2 * ns
      jr == RowOf(ns, f, X, Y)
      nr == IF jr < m THEN jr ELSE IF jr > 3 * m THEN 4 * m - jr ELSE m
      third == IF ns <= 64 THEN MulDiv(ONE, nr * nr, 3 * m * m)
               ELSE LET x == MulDiv(ONE, nr, m) IN FixMul(x, x) \div 3
      z == IF jr < m THEN ONE - third
           ELSE IF jr > 3 * m THEN third - ONE
           ELSE IF jr <= 2 * m THEN MulDiv(ONE, 2 * (2 * m - jr), 3 * m)
           ELSE -MulDiv(ONE, 2 * (jr - 2 * m), 3 * m)
      t == JpLL[f + 1] * nr + X - Y
  IN <<z, IF nr = 0 THEN 0 ELSE Mod1(MulDiv(TURN, (t + 8 * nr) % (8 * nr), 8 * nr)), nr = 0>>
Centre(ns, p) == Point(ns, p[1], 2 * p[2] + 1, 2 * p[3] + 1)
Corners(ns, p) == LET X == 2 * p[2] Y == 2 * p[3] IN          \* north, west, south, east
  <<Point(ns, p[1], X + 2, Y + 2), Point(ns, p[1], X, Y + 2), Point(ns, p[1], X, Y), Point(ns, p[1], X + 2, Y)>>

(* a position (nano-turns) against such a point; tol for z in 10^-8, tolerance of longitude by distance *)
AtPoint(pos, pt, tol) ==
  /\ Abs(SinNt(pos[2]) - pt[1]) <= tol
  /\ pt[3] \/ CircDist(pos[1], pt[2]) <= 4 * tol

(* pixels in which a position lies: more than one next to a pixel edge *)
(* floors of ns * v and next to it, v >= 0 and tol in 10^-8: ns * v as a whole number and a fraction *)
Floors(ns, v, tol) ==
  LET a == ns * (v \div 10000) + (ns * (v % 10000)) \div 10000
      w == a \div 10000
      f == (a % 10000) * 10000 + ((ns * (v % 10000)) % 10000)
  IN {w + ((f - ns * tol) \div ONE), w + ((f + ns * tol) \div ONE)}
PixelsAt(ns, lon, lat, tol) ==
  LET z == SinNt(lat)
      twothirds == 66666667
      za == Abs(z)
      quarter == lon \div QUARTER
      frac == (lon % QUARTER) * 4                                      \* within the quarter, 0..10^9-4
      fracE == frac \div 10                                            \* 10^-8
      \* equatorial zone: lines of the two directions, ns*(1/2 + tt -+ 3z/4); tt = quarter + frac
      base == ONE \div 2 + fracE
      zz == (3 * z) \div 4
      JP == {j + ns * quarter : j \in Floors(ns, base - zz, tol)}
      JM == {j + ns * quarter : j \in Floors(ns, base + zz, tol)}
      Equ == {LET ifp == jp \div ns ifm == jm \div ns
                  face == IF ifp = ifm THEN (ifp % 4) + 4 ELSE IF ifp < ifm THEN ifp % 4 ELSE (ifm % 4) + 8
              IN <<face, jm % ns, ns - (jp % ns) - 1>> : jp \in JP, jm \in JM}
      \* polar caps: distance from the pole sqrt(3(1-|z|)) = sqrt(6) sin(colatitude/2)
      s == FixMul(122474487, SinNt((QUARTER - Abs(lat)) \div 2) * 2)
      Clip(j) == Min2(Max2(j, 0), ns - 1)
      CapPix(q, p, m) == IF z > 0 THEN <<q, ns - m - 1, ns - p - 1>> ELSE <<q + 8, p, m>>
      Cap(q, fq) == {CapPix(q, Clip(jp), Clip(jm)) : jp \in Floors(ns, FixMul(fq, s), tol), jm \in Floors(ns, FixMul(ONE - fq, s), tol)}
      Pol == Cap(quarter, fracE)
      \* next to the meridian that divides two quarters of a cap
      Pol2 == IF fracE <= tol * 4 THEN Cap((quarter + 3) % 4, ONE)
              ELSE IF fracE >= ONE - 4 * tol THEN Cap((quarter + 1) % 4, 0) ELSE {}
      NearPole == IF s <= 4 * tol THEN {CapPix(q, 0, 0) : q \in 0..3} ELSE {}
  IN (IF za <= twothirds + tol THEN Equ ELSE {}) \cup (IF za >= twothirds - tol THEN Pol \cup Pol2 \cup NearPole ELSE {})
=============================================================================
