------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as digits to base 10000, least first, no   *)
(* leading (highest) zeros; zero is <<>>.  TLC's integers have 32 bits.    *)
EXTENDS Integers, Sequences
LOCAL Base == 10000
RECURSIVE Nat2Big(_)
Nat2Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat2Big(n \div Base)
LOCAL D(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddC(_, _, _, _)
LOCAL Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
AddC(a, b, i, c) == IF i > Longer(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == D(a, i) + D(b, i) + c IN <<s % Base>> \o AddC(a, b, i + 1, s \div Base)
Add(a, b) == AddC(a, b, 1, 0)
RECURSIVE MulD(_, _, _, _)
(* a times a digit *)
MulD(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == a[i] * d + c IN <<s % Base>> \o MulD(a, d, i + 1, s \div Base)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Mul(_, _)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE Trim(Add(MulD(a, b[1], 1, 0), LET t == Mul(a, Tail(b)) IN IF t = <<>> THEN <<>> ELSE <<0>> \o t))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
(* of trimmed numbers: -1, 0, 1 *)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE LET h == Pow2(k - 1) IN Add(h, h)
(* the smallest k with n <= 2**k, for n >= 1: bits that n values need *)
RECURSIVE BitsFrom(_, _, _)
BitsFrom(n, k, p) == IF Le(n, p) THEN k ELSE BitsFrom(n, k + 1, Add(p, p))
Bits(n) == BitsFrom(n, 0, <<1>>)
=============================================================================
