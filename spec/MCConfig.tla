------------------------------ MODULE MCConfig ------------------------------
(* A model of the packed configuration behind the hash of a map: the class  *)
(* name, then the options one after another, lists element by element.      *)
(* Checks that packing separates all configurations (C08), for every pair   *)
(* of configurations over a small domain, and generates the changes that    *)
(* are tried on the real code.                                              *)
EXTENDS Config, Json
CONSTANTS Vals, MaxList, Mutant
VARIABLES a, b, exported
(* an abstract configuration: class, builder, a scalar, a fixed pair, and lists of one length *)
Lists(n) == [1..n -> Vals]
Confs == [cls : {1, 2}, tb : {1, 2}, s : Vals, pair : [1..2 -> Vals], n : 0..MaxList, x : UNION {Lists(n) : n \in 0..MaxList},
          y : UNION {Lists(n) : n \in 0..MaxList}]
Legal(c) == Len(c.x) = c.n /\ (Mutant = "unequal" \/ Len(c.y) = c.n) /\ (c.cls = 1 => c.n = 0)
All == {c \in Confs : Legal(c)}
Sum(q) == IF Len(q) = 2 THEN <<q[1] + q[2]>> ELSE q
(* the two builders pack a different number of options *)
Pack(c) ==
  LET head == IF Mutant = "noclass" THEN <<>> ELSE <<c.cls>>
      build == IF c.tb = 1 THEN c.pair ELSE c.pair \o <<c.pair[1]>>
      tail == IF c.cls = 1 THEN <<c.s>>
              ELSE (IF Mutant = "forgetful" THEN <<>> ELSE <<c.s>>)
                   \o (IF Mutant = "unordered" THEN Sum(c.x) ELSE c.x) \o c.y
  IN head \o build \o tail
Init == a \in All /\ b \in All /\ exported = FALSE
Next == ~exported /\ exported' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, exported>>
Separates == Pack(a) = Pack(b) <=> a = b

(* every change of every option of every class and builder *)
ASSUME Mutant # "none" \/
  \A cls \in Classes : \A tb \in Builders : \A o \in Geometry(cls, tb) : \A ch \in Changes(o) :
     PrintT("CASE " \o ToJson([cls |-> cls, tb |-> tb, option |-> o, change |-> ch]))
(* the members of every family *)
ASSUME Mutant # "none" \/
  \A f \in {"cells", "legacy", "floats", "equat", "discrete", "rings", "healpix"} : \A v \in Family(f) :
     PrintT("CASE " \o ToJson([family |-> f, v |-> v]))
ASSUME Mutant # "none" \/ \A cls \in Classes : PrintT("CASE " \o ToJson([cls |-> cls, families |-> Families(cls)]))
=============================================================================
