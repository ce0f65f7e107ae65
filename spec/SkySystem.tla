----------------------------- MODULE SkySystem -----------------------------
(* Sky maps as objects: building, access by index, iteration, searching,   *)
(* copying and pickling, attempts to modify (C05, C06, C07, C09).          *)
(*                                                                         *)
(* A handle is a live map.  Tracts are generated when first asked for, and *)
(* then kept; a token names the object.  What a tract answers (its digest) *)
(* is a function of configuration and tract number only: Answer(c, i).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -1
(* a fresh map of configuration c with n tracts; lazy maps generate on access *)
Fresh(c, n, lazy) == [c |-> c, n |-> n, lazy |-> lazy, objs |-> [i \in 0..(n - 1) |-> NONE]]
InRange(m, i) == i >= 0 /\ i < m.n
(* what an access by index must give *)
GetErr(m, i) == ~InRange(m, i)
(* access gives the object it gave before, or any new one *)
TokenOK(m, i, tok) == m.objs[i] \in {NONE, tok}
Seen(m, i, tok) == [m EXCEPT !.objs[i] = tok]
(* within a map a token belongs to one tract *)
TokenFree(ms, h, i, tok) == \A j \in DOMAIN ms[h].objs : ms[h].objs[j] = tok => j = i
=============================================================================
