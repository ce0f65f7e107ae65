------------------------------- MODULE Serial -------------------------------
(* Registrations by several processes at once (C33): as if they happened   *)
(* one after the other, each at some moment between its call and return.   *)
(* A possibility is [repo: name -> map, at: process -> outcome, or "no"    *)
(* while the registration has not happened yet].                           *)
EXTENDS Register
Start == {[repo |-> Nothing, at |-> Nothing]}
Called(S, p) == {[s EXCEPT !.at = (p :> "no") @@ @] : s \in S}
Happen(s, p, m, n) == [repo |-> After(s.repo, m, n), at |-> (p :> Outcome(s.repo, m, n)) @@ s.at]
(* all that may have happened meanwhile; ops: process -> <<map, name>> *)
RECURSIVE Grow(_, _)
Grow(S, ops) ==
  LET T == S \cup UNION {{Happen(s, p, ops[p][1], ops[p][2]) : p \in {q \in DOMAIN s.at : s.at[q] = "no"}} : s \in S}
  IN IF T = S THEN S ELSE Grow(T, ops)
Without(s, p) == [s EXCEPT !.at = [q \in DOMAIN @ \ {p} |-> @[q]]]
Returned(S, p, kinds) == {Without(s, p) : s \in {t \in S : t.at[p] \in kinds}}
Ended(S, p) == {Without(s, p) : s \in {t \in S : t.at[p] \in {"no", "insert", "same", "conflict"}}}
Seen(S, view) == {s \in S : s.repo = view}
=============================================================================
