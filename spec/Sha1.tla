------------------------------- MODULE Sha1 -------------------------------
(* SHA-1 of a sequence of bytes.  A 32-bit word is <<upper, lower half>>,  *)
(* because TLC's integers are signed 32-bit ones.                          *)
EXTENDS Integers, Sequences, Bitwise
LOCAL H == 65536
LOCAL WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL WNot(a) == <<H - 1 - a[1], H - 1 - a[2]>>
LOCAL WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div H) % H, lo % H>>
LOCAL Rotl(a, n) == \* 0 < n < 16
  LET p == 2^n q == 2^(16 - n) IN
  <<((a[1] * p) % H) + (a[2] \div q), ((a[2] * p) % H) + (a[1] \div q)>>
LOCAL Rotl30(a) == LET b == Rotl(a, 14) IN <<b[2], b[1]>>
LOCAL F(t, b, c, d) ==
  IF t < 20 THEN WXor(WAnd(b, c), WAnd(WNot(b), d))
  ELSE IF t < 40 THEN WXor(b, WXor(c, d))
  ELSE IF t < 60 THEN WXor(WAnd(b, c), WXor(WAnd(b, d), WAnd(c, d)))
  ELSE WXor(b, WXor(c, d))
LOCAL K(t) == IF t < 20 THEN <<23170, 31129>> ELSE IF t < 40 THEN <<28377, 60321>>
              ELSE IF t < 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
(* padding: 1 bit, zeros, the length in bits as 8 bytes (here less than 2^31) *)
LOCAL Pad(m) ==
  LET n == Len(m)
      z == (119 - (n % 64)) % 64
      L == 8 * n
  IN m \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0, L \div 16777216, (L \div 65536) % 256, (L \div 256) % 256, L % 256>>
LOCAL WordAt(m, i) == <<m[i] * 256 + m[i + 1], m[i + 2] * 256 + m[i + 3]>>
RECURSIVE Sched(_, _)
LOCAL Sched(w, t) == IF t > 80 THEN w
  ELSE Sched(Append(w, Rotl(WXor(WXor(w[t - 3], w[t - 8]), WXor(w[t - 14], w[t - 16])), 1)), t + 1)
RECURSIVE Rounds(_, _, _)
LOCAL Rounds(w, t, s) == IF t = 80 THEN s
  ELSE Rounds(w, t + 1, <<WAdd(WAdd(WAdd(Rotl(s[1], 5), F(t, s[2], s[3], s[4])), WAdd(s[5], K(t))), w[t + 1]),
                          s[1], Rotl30(s[2]), s[3], s[4]>>)
RECURSIVE Blocks(_, _, _)
LOCAL Blocks(m, i, h) == IF i > Len(m) THEN h
  ELSE LET r == Rounds(Sched([j \in 1..16 |-> WordAt(m, i + 4 * (j - 1))], 17), 0, h)
       IN Blocks(m, i + 64, [j \in 1..5 |-> WAdd(h[j], r[j])])
LOCAL Start == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
Digest(bytes) ==
  LET h == Blocks(Pad(bytes), 1, Start) IN
  [i \in 1..20 |-> LET w == h[((i - 1) \div 4) + 1] k == (i - 1) % 4 IN
                   CASE k = 0 -> w[1] \div 256 [] k = 1 -> w[1] % 256 [] k = 2 -> w[2] \div 256 [] OTHER -> w[2] % 256]
===========================================================================
