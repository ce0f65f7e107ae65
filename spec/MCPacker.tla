------------------------------ MODULE MCPacker ------------------------------
(* All packers with small limits and all band mappings: an implementation-  *)
(* shaped packer (machine integers, division) against Packer; big numbers   *)
(* against machine integers.  Generates the packers tried on the real code. *)
EXTENDS Packer, Json
CONSTANTS MaxT, MaxP, MaxB, MaxIdx, Mutant
VARIABLES p, phase
Names == <<"g", "r", "i">>
Maps == UNION {{[k \in 1..n |-> <<Names[k], f[k]>>] : f \in {g \in [1..n -> 0..MaxIdx] : \A x, y \in 1..n : x # y => g[x] # g[y]}} : n \in 1..3}
Packers == [nt : 1..MaxT, np : 1..MaxP, nb : 0..MaxB, map : Maps]
Ids(q) == {id \in [tract : 0..MaxT, patch : 0..MaxP, band : {"g", "r", "i", "x"}] : TRUE}
Good(q) == {id \in Ids(q) : Accepts(q, id)}
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 10000 * ToInt(Tail(a))

(* the implementation *)
PackI(q, id) == id.patch + q.np * id.tract
                + (IF q.nb = 0 THEN 0
                   ELSE (IF Mutant = "position" THEN (CHOOSE i \in 1..Len(q.map) : q.map[i][1] = id.band) - 1
                         ELSE BandIndex(q.map, id.band)) * q.np * (IF Mutant = "notract" THEN 1 ELSE q.nt))
UnpackI(q, v) ==
  LET per == q.nt * q.np
      b == v \div per
      r == IF q.nb = 0 THEN v ELSE v % per
  IN [tract |-> r \div q.np, patch |-> r % q.np,
      band |-> IF q.nb = 0 THEN "" ELSE
               IF Mutant = "byposition" THEN (IF b + 1 <= Len(q.map) THEN q.map[b + 1][1] ELSE "?")
               ELSE LET S == {i \in 1..Len(q.map) : q.map[i][2] = b} IN IF S = {} THEN "?" ELSE q.map[CHOOSE i \in S : TRUE][1]]
BitLen(n) == CHOOSE k \in 0..31 : (n < 2^k) /\ (k = 0 \/ n >= 2^(k - 1))
BitsI(q) == BitLen(q.nt * q.np * (IF q.nb = 0 THEN 1 ELSE q.nb) - (IF Mutant = "bits" THEN 0 ELSE 1))

Init == p \in Packers /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, phase>>
Strip(q, id) == IF q.nb = 0 THEN [id EXCEPT !.band = ""] ELSE id
RoundTrip == \A id \in Good(p) : UnpackI(p, PackI(p, id)) = Strip(p, id)
Injective == \A a, b \in Good(p) : PackI(p, a) = PackI(p, b) => Strip(p, a) = Strip(p, b)
Formula == \A id \in Good(p) : PackI(p, id) = ToInt(Value(p, id))
Fits == \A id \in Good(p) : PackI(p, id) >= 0 /\ PackI(p, id) < 2^BitsI(p)
Minimal == BitsI(p) = MaxBits(p)
Big == \A a \in {0, 1, 9999, 10000, 123456, 46340} : \A b \in {0, 1, 7, 9999, 10000, 30000} :
         /\ ToInt(Add(Nat2Big(a), Nat2Big(b))) = a + b
         /\ Cmp(Nat2Big(a), Nat2Big(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
         /\ a < 50000 => ToInt(Mul(Nat2Big(a), Nat2Big(b))) = a * b
ASSUME Big
Export == (phase = 1 /\ Mutant = "none" /\ Len(p.map) >= 2) => PrintT("CASE " \o ToJson(p))
=============================================================================
