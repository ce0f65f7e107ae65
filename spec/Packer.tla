------------------------------- MODULE Packer -------------------------------
(* Packing tract, patch and band into one integer (C21, C22).               *)
EXTENDS BigNat, FiniteSets, TLC

Needed == {"skymap", "tract", "patch"}
(* the built-in bands, by index from 0; the first entry is no band at all *)
BuiltIn == <<"", "u", "g", "r", "i", "z", "y", "U", "B", "G", "V", "R", "I", "Z", "Y", "J", "H", "K",
             "N387", "N515", "N656", "N816", "N921", "N1010", "N419", "N540", "N708", "N964">>
(* a mapping is a sequence of <<name, index>>; <<"*">> stands for the built-in one *)
Mapping(b) == IF b = "builtin" THEN [i \in 1..Len(BuiltIn) |-> <<BuiltIn[i], i - 1>>] ELSE b
HasBand(map, n) == \E i \in 1..Len(map) : map[i][1] = n
BandIndex(map, n) == LET i == CHOOSE i \in 1..Len(map) : map[i][1] = n IN map[i][2]
(* the packer a set of arguments makes: limits (NONE: not given), dimensions {} when not given *)
NotGiven == -1
DimsOK(dims) == dims = {} \/ dims = Needed \/ dims = Needed \cup {"band"}
BandLimit(dims, nb, map) ==
  IF dims # {} /\ "band" \notin dims THEN 0 ELSE IF nb = NotGiven THEN Len(map) ELSE nb
Limit(given, default) == IF given = NotGiven THEN default ELSE given
Dimensions(nb) == Needed \cup (IF nb = 0 THEN {} ELSE {"band"})

(* a packer p: [nt, np, nb, map] *)
Accepts(p, id) == /\ id.tract < p.nt /\ id.patch < p.np
                  /\ p.nb # 0 => (HasBand(p.map, id.band) /\ BandIndex(p.map, id.band) < p.nb)
Value(p, id) ==
  LET t == Add(Nat2Big(id.patch), Mul(Nat2Big(p.np), Nat2Big(id.tract))) IN
  IF p.nb = 0 THEN t
  ELSE Add(t, Mul(Nat2Big(BandIndex(p.map, id.band)), Mul(Nat2Big(p.np), Nat2Big(p.nt))))
Capacity(p) == LET t == Mul(Nat2Big(p.nt), Nat2Big(p.np)) IN IF p.nb = 0 THEN t ELSE Mul(t, Nat2Big(p.nb))
MaxBits(p) == Bits(Capacity(p))
=============================================================================
