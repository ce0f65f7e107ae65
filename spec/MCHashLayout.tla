--------------------------- MODULE MCHashLayout ---------------------------
(* No two configurations have the same bytes; the SHA-1 of the             *)
(* specification is right on published and boundary messages.              *)
EXTENDS HashLayout, Sha1, FiniteSets, TLC
CONSTANT Mutant
VARIABLE k0
F(v) == <<v, 0, 0, 0, 0, 0, 0, 64>>
ASSUME Digest(<<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96, 24, 144, 175, 216, 7, 9>>
ASSUME Digest(<<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
ASSUME Digest([i \in 1..55 |-> 97]) = <<193, 200, 187, 220, 34, 121, 110, 40, 192, 225, 81, 99, 210, 8, 153, 182, 86, 33, 214, 90>>
ASSUME Digest([i \in 1..56 |-> 97]) = <<194, 219, 51, 15, 96, 131, 133, 76, 153, 212, 181, 191, 182, 232, 242, 159, 32, 27, 230, 153>>
ASSUME Digest([i \in 1..200 |-> i - 1]) = <<84, 209, 30, 153, 18, 125, 21, 151, 153, 219, 206, 16, 245, 26, 117, 230, 151, 120, 4, 120>>
V == {1, 2}
Builder == {<<a, b, d>> : a \in V, b \in V, d \in {0, 1}} \cup {<<a, a, d, k, e>> : a \in V, d \in {0, 1}, k \in V, e \in {0, 1}}
Owns(cls) ==
  CASE cls = "dodeca" -> [n : {0}, floats : {<<>>}, flag : BOOLEAN]
    [] cls = "equat" -> [n : V, floats : {<<F(a), F(b)>> : a \in V, b \in V}, flag : {FALSE}]
    [] cls = "discrete" -> [n : {0}, floats : {<<F(a), F(b), F(d)>> : a \in V, b \in V, d \in V} \cup {<<>>}
                                              \cup {<<F(1), F(a), F(2), F(b), F(1), F(d)>> : a \in V, b \in V, d \in V}, flag : {FALSE}]
    [] cls = "rings" -> [n : V, floats : {<<F(a)>> : a \in V}, flag : {FALSE}]
    [] cls = "healpix" -> [n : {0, 1}, floats : {<<>>}, flag : BOOLEAN]
Classes == {"dodeca", "equat", "discrete", "rings", "healpix"}
All(k) == {[cls |-> k, ints |-> b, overlap |-> F(ov), scale |-> F(sc), proj |-> p, rotation |-> F(r), n |-> o.n, floats |-> o.floats, flag |-> o.flag] :
             b \in Builder, ov \in V, sc \in V, p \in {<<84, 65, 78>>, <<83, 84, 71>>}, r \in V, o \in Owns(k)}
(* wrong layouts: "merged" adds the border cells to the cell border,       *)
(* "forgetful" leaves the rotation out                                     *)
L(x) == CASE Mutant = "merged" -> Layout([x EXCEPT !.ints = IF Len(@) = 5 THEN <<@[1], @[2], @[3] + @[5], @[4], 0>> ELSE @])
          [] Mutant = "forgetful" -> Layout([x EXCEPT !.rotation = F(0)])
          [] OTHER -> Layout(x)
Init == k0 = "none"
Next == k0 = "none" /\ k0' \in Classes
Spec == Init /\ [][Next]_k0
(* within a class no two configurations have the same bytes; a class's     *)
(* bytes are never those of another                                        *)
Images(k) == {L(x) : x \in All(k)}
Injective == k0 # "none" => Cardinality(Images(k0)) = Cardinality(All(k0))
Apart == k0 # "none" => \A k \in Classes \ {k0} : Images(k0) \cap Images(k) = {}
(* a small sample of messages also has different digests                   *)
Few == {x \in All("rings") : x.ints[1] = 2 /\ x.overlap = F(1) /\ x.scale = F(2) /\ x.n = 1}
Digests == k0 = "rings" => Cardinality({Digest(L(x)) : x \in Few}) = Cardinality(Few)
===========================================================================
