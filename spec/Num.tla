------------------------------- MODULE Num -------------------------------
(* Integer and fixed-point arithmetic that stays inside TLC's 32-bit       *)
(* integers.  Fixed point: value v stands for v / 10^8.  Angles are        *)
(* nano-turns (nt): 10^9 nt = 360 degrees.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)

ONE == 100000000                    \* fixed-point 1
TURN == 1000000000
HALFTURN == 500000000
QUARTER == 250000000

(* floor(a*b/c) for 0 <= a <= 10^9, 0 <= b < 20000, 1 <= c <= 100000 *)
MulDiv(a, b, c) ==
  LET ah == a \div 10000
      al == a % 10000
      t1 == ah * b                  \* <= 10^5 * 2*10^4 = 2*10^9
      q1 == t1 \div c
      r1 == t1 % c                  \* < c
      \* (r1*10000 + al*b) / c
      s  == r1 * 10000 + al * b     \* <= 10^9 + 2*10^8
  IN  q1 * 10000 + s \div c

(* the same with three more digits: <<floor, thousandths (rounded down)>> *)
FineMulDiv(a, b, c) ==
  LET ah == a \div 10000
      al == a % 10000
      t1 == ah * b
      s  == (t1 % c) * 10000 + al * b
  IN  <<(t1 \div c) * 10000 + s \div c, ((s % c) * 1000) \div c>>

(* product of two fixed-point numbers, |a|,|b| <= 2*10^8, error < 3 *)
FixMulPos(a, b) ==
  LET ah == a \div 10000
      al == a % 10000
      bh == b \div 10000
      bl == b % 10000
  IN  ah * bh + ((ah * bl + al * bh) + (al * bl) \div 10000) \div 10000
FixMul(a, b) ==
  IF (a < 0) = (b < 0) THEN FixMulPos(Abs(a), Abs(b)) ELSE -FixMulPos(Abs(a), Abs(b))

Dot(u, v) == FixMul(u[1], v[1]) + FixMul(u[2], v[2]) + FixMul(u[3], v[3])

(* cos and sin of an angle of t nano-turns, 0 <= t <= QUARTER/2 by Taylor  *)
(* x = 2 pi t in fixed point                                               *)
NtToFix(t) == \* 2*pi*10^-9*t in units of 10^-8: 0.62831853 t, for 0 <= t <= 2.5*10^8
  LET th == t \div 10000            \* <= 25000
      tl == t % 10000
  IN  th * 6283 + (th * 1853 + tl * 6283) \div 10000
CosTaylor(x) == \* x fixed, 0 <= x <= 0.8*10^8
  LET x2 == FixMulPos(x, x)
      x4 == FixMulPos(x2, x2)
      x6 == FixMulPos(x4, x2)
      x8 == FixMulPos(x4, x4)
      x10 == FixMulPos(x8, x2)
  IN ONE - x2 \div 2 + x4 \div 24 - x6 \div 720 + x8 \div 40320 - x10 \div 3628800
SinTaylor(x) ==
  LET x2 == FixMulPos(x, x)
      x3 == FixMulPos(x2, x)
      x5 == FixMulPos(x3, x2)
      x7 == FixMulPos(x5, x2)
      x9 == FixMulPos(x7, x2)
  IN x - x3 \div 6 + x5 \div 120 - x7 \div 5040 + x9 \div 362880
RECURSIVE CosNt(_)
RECURSIVE SinNt(_)
(* any t with |t| <= 2*10^9; error below 40 units of 10^-8 *)
CosNt(t) ==
  LET u == t % TURN IN
  IF u > HALFTURN THEN CosNt(TURN - u)
  ELSE IF u > QUARTER THEN -CosNt(HALFTURN - u)
  ELSE IF u > QUARTER \div 2 THEN SinTaylor(NtToFix(QUARTER - u))
  ELSE CosTaylor(NtToFix(u))
SinNt(t) == CosNt((t % TURN) - QUARTER)
UnitVec(lon, lat) == << FixMul(CosNt(lat), CosNt(lon)), FixMul(CosNt(lat), SinNt(lon)), SinNt(lat) >>

(* circular helpers on nano-turns *)
Mod1(t) == t % TURN
CircDist(a, b) == LET d == Mod1(a - b) IN Min2(d, TURN - d)
==========================================================================
