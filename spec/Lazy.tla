-------------------------------- MODULE Lazy --------------------------------
(* Tracts that are made on request and kept (C35).  A map is a record        *)
(*   n     : number of tracts                                               *)
(*   done  : tracts made                                                    *)
(*   maybe : tracts that a copied map may have brought along                 *)
(*   arm   : tract -> how often its making will still fail                   *)
(* att: the tracts that an operation began to make, in order.                *)
EXTENDS Num
Blank(n, brought) == [n |-> n, done |-> {}, maybe |-> brought, arm |-> [i \in 0..(n - 1) |-> 0]]
Armed(m, i) == i \in DOMAIN m.arm /\ m.arm[i] > 0
Failed(m, att) == att # <<>> /\ Armed(m, att[Len(att)])
(* every tract once, none that is there, and nothing after a failure *)
Once(m, att) == /\ \A j \in 1..Len(att) : att[j] \in 0..(m.n - 1) /\ att[j] \notin m.done
                /\ \A j, k \in 1..Len(att) : att[j] = att[k] => j = k
Passed(m, att) == \A j \in 1..(Len(att) - 1) : ~Armed(m, att[j])
After(m, att) ==
  LET made == Range(att) \ (IF Failed(m, att) THEN {att[Len(att)]} ELSE {}) IN
  [m EXCEPT !.done = @ \cup made, !.arm = IF Failed(m, att) THEN [@ EXCEPT ![att[Len(att)]] = @ - 1] ELSE @]
(* a tract asked for by its number (or reached by an iteration) *)
Requested(m, i, att) == \/ att = <<>> /\ i \in (m.done \cup m.maybe)
                        \/ att = <<i>> /\ i \notin m.done
(* a position: only the tract it is in *)
Within(att, S) == Range(att) \subseteq S
=============================================================================
