------------------------------- MODULE MCLazy -------------------------------
(* Maps with a tract cache, whose making of tracts may fail, under every     *)
(* sequence of operations; generates schedules for the real code.            *)
EXTENDS Lazy, Json
CONSTANTS N, MaxMaps, MaxIters, Mutant,
          Depth    \* operations in a history; 0: any number
VARIABLES abs,     \* handle -> Lazy
          cache,   \* handle -> tracts in the cache of the implementation
          bad,     \* handle -> tracts whose making failed once
          iters,   \* iterator -> [h, next] (next = N: ended)
          out, hist
vars == <<abs, cache, bad, iters, out, hist>>
Tr == 0..(N - 1)
Init == /\ abs = <<Blank(N, {})>> /\ cache = <<{}>> /\ bad = <<{}>> /\ iters = <<>>
        /\ out = [op |-> "none"] /\ hist = <<>>
Do(op) == hist' = IF Depth = 0 THEN <<>> ELSE Append(hist, op)
(* the mechanism: what an access of tract i of map h begins to make, and then has *)
Begins(h, i) == IF i \in cache[h] THEN <<>>
                ELSE IF Mutant = "prefetch" /\ i + 1 \in Tr \ cache[h] /\ ~Armed(abs[h], i) THEN <<i, i + 1>> ELSE <<i>>
Has(h, att) ==
  LET f == Failed(abs[h], att) last == IF att = <<>> THEN 0 ELSE att[Len(att)] IN
  LET made == Range(att) \ (IF f /\ Mutant # "poison" THEN {last} ELSE {}) IN
  cache[h] \cup (IF Mutant = "forget" THEN made \ bad[h] ELSE made)
Step1(h, op, i, att) ==
  /\ cache' = [cache EXCEPT ![h] = Has(h, att)]
  /\ bad' = [bad EXCEPT ![h] = IF Mutant = "forget" /\ Failed(abs[h], att) THEN @ \cup {att[Len(att)]} ELSE @]
  /\ out' = [op |-> op, m |-> abs[h], i |-> i, att |-> att, err |-> Failed(abs[h], att), none |-> i \notin Has(h, att) \cup Range(att)]
  /\ abs' = [abs EXCEPT ![h] = After(@, att)]
Get(h, i) == Step1(h, "get", i, Begins(h, i)) /\ Do(<<"get", h, i>>) /\ UNCHANGED iters
GetBad(h, i) == out' = [op |-> "bad", att |-> <<>>] /\ Do(<<"get", h, i>>) /\ UNCHANGED <<abs, cache, bad, iters>>
(* length, hash, comparison, version, pickling *)
Quiet(h) == LET att == IF Mutant = "eager" /\ 0 \notin cache[h] THEN <<0>> ELSE <<>> IN
            Step1(h, "quiet", 0, att) /\ Do(<<"quiet", h>>) /\ UNCHANGED iters
Find(h, i) == Step1(h, "find", i, Begins(h, i)) /\ Do(<<"find", h, i>>) /\ UNCHANGED iters
Missing(h) == SelectSeq([j \in 1..N |-> j - 1], LAMBDA i : i \notin cache[h])
(* all tracts, up to the first failure *)
UpTo(h) == LET s == Missing(h) F == {j \in 1..Len(s) : Armed(abs[h], s[j])} IN
           IF F = {} THEN s ELSE SubSeq(s, 1, CHOOSE j \in F : \A k \in F : j <= k)
All(h) == Step1(h, "all", 0, UpTo(h)) /\ Do(<<"all", h>>) /\ UNCHANGED iters
Iter(h) == /\ Len(iters) < MaxIters /\ iters' = Append(iters, [h |-> h, next |-> 0]) /\ Do(<<"iter", h>>)
           /\ IF Mutant = "listiter" THEN Step1(h, "quiet", 0, UpTo(h)) ELSE out' = [op |-> "none"] /\ UNCHANGED <<abs, cache, bad>>
Step(t) == LET it == iters[t] att == IF it.next < N THEN Begins(it.h, it.next) ELSE <<>> IN
  /\ IF it.next < N THEN Step1(it.h, "get", it.next, att)
     ELSE out' = [op |-> "stop"] /\ UNCHANGED <<abs, cache, bad>>
  /\ iters' = [iters EXCEPT ![t].next = IF it.next = N THEN N ELSE IF Failed(abs[it.h], att) THEN N ELSE it.next + 1]
  /\ Do(<<"step", t>>)
Copy(h) == /\ Len(abs) < MaxMaps /\ abs' = Append(abs, Blank(N, abs[h].done)) /\ cache' = Append(cache, {}) /\ bad' = Append(bad, {})
           /\ out' = [op |-> "none"] /\ Do(<<"copy", h>>) /\ UNCHANGED iters
(* the next making of a tract will fail *)
Arm(h, i) == /\ abs[h].arm[i] = 0 /\ i \notin abs[h].done
             /\ abs' = [abs EXCEPT ![h].arm[i] = 1] /\ out' = [op |-> "none"] /\ Do(<<"arm", h, i>>) /\ UNCHANGED <<cache, bad, iters>>
Next == /\ Depth = 0 \/ Len(hist) < Depth
        /\ \/ \E h \in DOMAIN abs : \/ \E i \in Tr : Get(h, i) \/ Find(h, i) \/ Arm(h, i)
                                    \/ \E i \in {-1, N} : GetBad(h, i)
                                    \/ Quiet(h) \/ All(h) \/ Iter(h) \/ Copy(h)
           \/ \E t \in DOMAIN iters : Step(t)
Spec == Init /\ [][Next]_vars
Right == out.op \in {"get", "find", "quiet", "all"} =>
  /\ Once(out.m, out.att) /\ Passed(out.m, out.att)
  /\ out.op \in {"get", "find"} => Requested(out.m, out.i, out.att) /\ ~out.none
  /\ out.op = "quiet" => out.att = <<>>
Refines == \A h \in DOMAIN abs : cache[h] = abs[h].done
Export == (Depth > 0 /\ Len(hist) = Depth) => PrintT("CASE " \o ToJson(hist))
View == <<abs, cache, bad, iters, out, Len(hist)>>
(* of the last outcome only whether it was right is kept *)
AnyView == <<abs, cache, bad, iters, Right>>
=============================================================================
