------------------------------ MODULE MCSerial ------------------------------
(* Processes that register maps in one repository at the same time, step by *)
(* step, with one writer at a time; a process may die or fail at any step.  *)
(* Every history of calls, returns and views must have a serial order       *)
(* (Serial).  Also generates the schedules by which real processes are run. *)
EXTENDS Serial, Json
CONSTANTS NP, NMaps, NNames, MaxFail, MaxLook, Mutant
VARIABLES db,      \* committed [sky: set of <<name, map>>, rows: set of <<name, map, part>>]
          work,    \* as the writer sees it
          lock,    \* the writer, or 0
          pr,      \* process -> [pc, m, n, ins]
          poss,    \* possibilities (Serial)
          fails, looks, sched
vars == <<db, work, lock, pr, poss, fails, looks, sched>>
Procs == 1..NP
Empty == [sky |-> {}, rows |-> {}]
Init == /\ db = Empty /\ work = Empty /\ lock = 0 /\ fails \in 0..MaxFail /\ looks \in 0..MaxLook /\ sched = <<>>
        /\ pr \in [Procs -> [pc : {"idle"}, m : 1..NMaps, n : 1..NNames, ins : {FALSE}]]
        /\ poss = Start
Ops == [p \in Procs |-> <<pr[p].m, pr[p].n>>]
To(p, pc) == pr' = [pr EXCEPT ![p].pc = pc]
Ran(p) == sched' = Append(sched, <<p, pr[p].pc>>)
Conflict(d, p) == \E r \in d.sky : (r[1] = pr[p].n) # (r[2] = pr[p].m)
There(d, p) == <<pr[p].n, pr[p].m>> \in d.sky
Call(p) == /\ pr[p].pc = "idle" /\ To(p, "type") /\ poss' = Called(poss, p) /\ Ran(p) /\ UNCHANGED <<db, work, lock, fails, looks>>
(* run and dataset type: small transactions of their own *)
Type(p) == /\ pr[p].pc \in {"type", "wtype"} /\ lock = 0 /\ Ran(p) /\ UNCHANGED <<db, work, lock, poss, fails, looks>>
           /\ IF Mutant = "checkfirst" THEN pr' = [pr EXCEPT ![p].pc = "begin", ![p].ins = ~Conflict(db, p) /\ ~There(db, p)] ELSE To(p, "begin")
(* one that comes too early waits *)
Wait(p) == /\ pr[p].pc \in {"type", "begin"} /\ lock # 0 /\ Mutant # "nolock" /\ Ran(p)
           /\ To(p, IF pr[p].pc = "type" THEN "wtype" ELSE "wbegin") /\ UNCHANGED <<db, work, lock, poss, fails, looks>>
Begin(p) == /\ pr[p].pc \in {"begin", "wbegin"} /\ (lock = 0 \/ Mutant = "nolock") /\ lock' = (IF Mutant = "nolock" THEN 0 ELSE p)
            /\ work' = db /\ To(p, "sync") /\ Ran(p) /\ UNCHANGED <<db, poss, fails, looks>>
View(d) == IF Mutant = "nolock" THEN db ELSE d
Put(w) == work' = w /\ db' = (IF Mutant = "nolock" THEN w ELSE db)
Ret(p, kinds) == poss' = Returned(Grow(poss, Ops), p, kinds) /\ To(p, "done")
Sync(p) == /\ pr[p].pc = "sync" /\ Ran(p) /\ UNCHANGED <<fails, looks>>
           /\ IF (Mutant = "checkfirst" /\ pr[p].ins) \/ (Mutant # "checkfirst" /\ ~Conflict(View(work), p) /\ ~There(View(work), p))
              THEN Put([View(work) EXCEPT !.sky = @ \cup {<<pr[p].n, pr[p].m>>}]) /\ To(p, "rows") /\ UNCHANGED <<lock, poss>>
              ELSE IF There(View(work), p) THEN To(p, "commit") /\ UNCHANGED <<db, work, lock, poss>>
              ELSE Ret(p, {"conflict"}) /\ lock' = 0 /\ UNCHANGED <<db, work>>
Rows(p) == /\ pr[p].pc = "rows" /\ Ran(p) /\ UNCHANGED <<lock, poss, fails, looks>>
           /\ Put([View(work) EXCEPT !.rows = @ \cup {<<pr[p].n, pr[p].m, k>> : k \in 1..2}]) /\ To(p, "put")
StorePut(p) == /\ pr[p].pc = "put" /\ Ran(p) /\ UNCHANGED <<lock, poss, fails, looks>>
               /\ Put([View(work) EXCEPT !.rows = @ \cup {<<pr[p].n, pr[p].m, 3>>}]) /\ To(p, "commit")
Commit(p) == /\ pr[p].pc = "commit" /\ Ran(p) /\ UNCHANGED <<fails, looks>> /\ lock' = 0
             /\ IF Mutant = "nolock" THEN UNCHANGED <<db, work>> ELSE db' = work /\ UNCHANGED work
             /\ Ret(p, {"insert", "same"})
(* the process dies, or one of its steps fails *)
Fail(p) == /\ pr[p].pc \notin {"idle", "done"} /\ fails < MaxFail /\ fails' = fails + 1
           /\ sched' = Append(sched, <<p, "fail">>) /\ To(p, "done") /\ poss' = Ended(Grow(poss, Ops), p)
           /\ lock' = (IF lock = p THEN 0 ELSE lock) /\ UNCHANGED <<db, work, looks>>
ViewOf(d) == [n \in {r[1] : r \in d.sky} |-> IF Cardinality({r \in d.sky : r[1] = n}) = 1 THEN (CHOOSE r \in d.sky : r[1] = n)[2] ELSE 0]
Look == /\ looks < MaxLook /\ looks' = looks + 1 /\ sched' = Append(sched, <<0, "look">>)
        /\ poss' = Seen(Grow(poss, Ops), ViewOf(db)) /\ UNCHANGED <<db, work, lock, pr, fails>>
Next == Look \/ \E p \in Procs : Call(p) \/ Wait(p) \/ Type(p) \/ Begin(p) \/ Sync(p) \/ Rows(p) \/ StorePut(p) \/ Commit(p) \/ Fail(p)
Spec == Init /\ [][Next]_vars
Done == \A p \in Procs : pr[p].pc = "done"
Serialises == poss # {}
Whole == \A r \in db.sky : db.rows \cap {<<r[1], m, k>> : m \in 1..NMaps, k \in 1..3} = {<<r[1], r[2], k>> : k \in 1..3}
Nothing0 == \A x \in db.rows : <<x[1], x[2]>> \in db.sky
Final == Done => Seen(Grow(poss, Ops), ViewOf(db)) # {}
(* nobody waits for ever *)
Lively == Done \/ \E p \in Procs : lock \in {0, p} /\ pr[p].pc # "done"
Export == Done => PrintT("CASE " \o ToJson([ops |-> Ops, sched |-> sched]))
VarView == <<db, work, lock, pr, poss, fails, looks>>
=============================================================================
