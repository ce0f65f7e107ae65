----------------------------- MODULE MCRegister -----------------------------
(* Registration step by step, inside a transaction, with a failure possible *)
(* before or after every step (an error or the end of the process), retries *)
(* and several maps and names, against Register.  Generates the histories   *)
(* replayed on real repositories.                                           *)
EXTENDS Register, Json
CONSTANTS NMaps, NNames, Mutant,
          MaxOps    \* registrations in a history; 0: any number (hist then holds the last)
VARIABLES db,       \* committed rows: [sky, tract, patch: sets of rows; store: name -> map]
          work,     \* rows as the running transaction sees them
          pc,       \* "idle" or the next step of the running registration
          cur,      \* <<map, name, tract>>
          abs, hist, last
vars == <<db, work, pc, cur, abs, hist, last>>
Maps == 1..NMaps
Names == 1..NNames
Tracts == 0..1
Empty == [sky |-> {}, tract |-> {}, patch |-> {}, store |-> {}]
Init == db = Empty /\ work = Empty /\ pc = "idle" /\ cur = <<0, 0, 0>> /\ abs = Nothing /\ hist = <<>> /\ last = "none"

Write(w) == work' = w /\ db' = (IF Mutant = "notransaction" THEN w ELSE db)
Stop(res, newdb) == /\ pc' = "idle" /\ db' = newdb /\ work' = newdb /\ last' = res /\ UNCHANGED <<cur>>
Begin == /\ pc = "idle" /\ (MaxOps = 0 \/ Len(hist) < MaxOps)
         /\ \E m \in Maps, n \in Names :
              /\ cur' = <<m, n, 0>> /\ pc' = "sync" /\ hist' = (IF MaxOps = 0 THEN <<<<m, n, 0>>>> ELSE Append(hist, <<m, n, 0>>))
         /\ work' = db /\ last' = "running" /\ UNCHANGED <<db, abs>>
Sync == /\ pc = "sync"
        /\ LET m == cur[1] n == cur[2] IN
           IF \E r \in work.sky : IF Mutant = "ignorehash" THEN r[1] = n /\ r[2] # m ELSE (r[1] = n) # (r[2] = m)
           THEN Stop("conflict", db) /\ UNCHANGED <<abs, hist>>
           ELSE IF \E r \in work.sky : r = <<n, m>>
           THEN pc' = "commit" /\ UNCHANGED <<db, work, cur, abs, hist, last>>
           ELSE /\ Write([work EXCEPT !.sky = @ \cup {<<n, m>>}]) /\ pc' = "tract" /\ UNCHANGED <<cur, abs, hist, last>>
Tract == /\ pc = "tract" /\ Write([work EXCEPT !.tract = @ \cup {<<cur[2], cur[3]>>}])
         /\ pc' = "patch" /\ UNCHANGED <<cur, abs, hist, last>>
Patch == /\ pc = "patch" /\ Write([work EXCEPT !.patch = @ \cup {<<cur[2], cur[3], p>> : p \in 0..1}])
         /\ pc' = IF cur[3] = 1 THEN "put" ELSE "tract"
         /\ cur' = <<cur[1], cur[2], (cur[3] + 1) % 2>> /\ UNCHANGED <<abs, hist, last>>
Put == /\ pc = "put"
       /\ IF Mutant = "putlater" THEN work' = work /\ db' = work /\ pc' = "putlate"
          ELSE Write([work EXCEPT !.store = @ \cup {<<cur[2], cur[1]>>}]) /\ pc' = "commit"
       /\ UNCHANGED <<cur, abs, hist, last>>
PutLate == /\ pc = "putlate" /\ Stop("done", [work EXCEPT !.store = @ \cup {<<cur[2], cur[1]>>}])
           /\ abs' = After(abs, cur[1], cur[2]) /\ UNCHANGED hist
Commit == /\ pc = "commit" /\ Stop("done", work) /\ abs' = After(abs, cur[1], cur[2]) /\ UNCHANGED hist
(* a failure anywhere: what was committed stays, and the history notes where *)
StepNo == CASE pc = "sync" -> 1 [] pc = "tract" -> 2 + 2 * cur[3] [] pc = "patch" -> 3 + 2 * cur[3]
            [] pc = "put" -> 6 [] pc = "commit" -> 7 [] pc = "putlate" -> 8
Fail == /\ pc # "idle" /\ Stop("failed", db) /\ hist' = [hist EXCEPT ![Len(hist)][3] = StepNo] /\ UNCHANGED abs
Next == Begin \/ Sync \/ Tract \/ Patch \/ Put \/ PutLate \/ Commit \/ Fail
Spec == Init /\ [][Next]_vars

(* what the committed rows must be for the abstract repository *)
Rows(r) == [sky |-> {<<n, r[n]>> : n \in DOMAIN r},
            tract |-> {<<n, t>> : n \in DOMAIN r, t \in Tracts},
            patch |-> {<<n, t, p>> : n \in DOMAIN r, t \in Tracts, p \in 0..1},
            store |-> {<<n, r[n]>> : n \in DOMAIN r}]
AllOrNothing == pc = "idle" => db = Rows(abs)
Hidden == Mutant # "putlater" => db = Rows(abs)      \* nothing shows before the commit
Conflicts == (pc = "idle" /\ hist # <<>> /\ last \in {"done", "conflict"}) =>
               (last = "conflict" <=> \E n \in DOMAIN abs : (n = hist[Len(hist)][2]) # (abs[n] = hist[Len(hist)][1]))
Export == (pc = "idle" /\ MaxOps > 0 /\ Len(hist) = MaxOps /\ Mutant = "none") => PrintT("CASE " \o ToJson(hist))
=============================================================================
