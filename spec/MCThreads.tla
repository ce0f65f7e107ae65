----------------------------- MODULE MCThreads -----------------------------
(* Threads that use one lazy map, step by step: look in the cache, set up  *)
(* the tract builder, make the tract from it, store the tract, ask it.     *)
(* All interleavings; they are also the schedules by which the real code   *)
(* is run (a step stands for a stretch of an operation's code).            *)
EXTENDS Threads, Json
CONSTANTS NT, N, NOps, Mutant
VARIABLES cache,     \* tract -> object or 0
          objs,      \* sequence of objects [of: tract, size: 0 when not finished]
          shared,    \* a builder, and a memory of the last tract, that all threads share (used by mutants)
          th,        \* thread -> [pc, obj, size]
          todo,      \* thread -> tracts still to ask
          open, out, sched, prog
vars == <<cache, objs, shared, th, todo, open, out, sched, prog>>
Tracts == 0..(N - 1)
Size(i) == 10 + i
Alone == [i \in Tracts |-> <<i, Size(i)>>]
Progs == UNION {[1..k -> Tracts] : k \in 1..NOps}
Fresh == [pc |-> "idle", obj |-> 0, size |-> 0]
Init == /\ cache = [i \in Tracts |-> 0] /\ objs = <<>> /\ shared = [size |-> 0, of |-> -1, obj |-> 0]
        /\ th = [t \in 1..NT |-> Fresh] /\ prog \in [1..NT -> Progs] /\ todo = prog
        /\ open = [t \in 1..NT |-> IDLE] /\ out = <<>> /\ sched = <<>>
Set(t, pc, obj, size) == th' = [th EXCEPT ![t] = [pc |-> pc, obj |-> obj, size |-> size]]
Ran(t) == sched' = Append(sched, <<t, th[t].pc>>) /\ UNCHANGED prog
I(t) == Head(todo[t])
(* start and look in the cache (one step) *)
Look(t) == /\ th[t].pc = "idle" /\ todo[t] # <<>> /\ CanStart(open, t)
           /\ open' = [open EXCEPT ![t] = <<I(t)>>]
           /\ IF Mutant = "lastonly" THEN Set(t, IF shared.of = I(t) THEN "take" ELSE "setup", 0, 0)
              ELSE IF cache[I(t)] # 0 THEN Set(t, "ask", cache[I(t)], 0) ELSE Set(t, "setup", 0, 0)
           /\ out' = <<>> /\ UNCHANGED <<cache, objs, shared, todo>>
Take(t) == /\ th[t].pc = "take" /\ Set(t, "ask", shared.obj, 0) /\ out' = <<>> /\ UNCHANGED <<cache, objs, shared, todo, open>>
Setup(t) == /\ th[t].pc = "setup"
            /\ IF Mutant = "storefirst"
               THEN /\ objs' = Append(objs, [of |-> I(t), size |-> 0]) /\ cache' = [cache EXCEPT ![I(t)] = Len(objs) + 1]
                    /\ Set(t, "make", Len(objs) + 1, Size(I(t)))
               ELSE UNCHANGED <<objs, cache>> /\ Set(t, "make", 0, Size(I(t)))
            /\ shared' = [shared EXCEPT !.size = Size(I(t))] /\ out' = <<>> /\ UNCHANGED <<todo, open>>
Make(t) == LET s == IF Mutant = "sharedbuilder" THEN shared.size ELSE th[t].size IN
           /\ th[t].pc = "make"
           /\ IF Mutant = "storefirst"
              THEN objs' = [objs EXCEPT ![th[t].obj].size = s] /\ Set(t, "store", th[t].obj, s)
              ELSE objs' = Append(objs, [of |-> I(t), size |-> s]) /\ Set(t, "store", Len(objs) + 1, s)
           /\ out' = <<>> /\ UNCHANGED <<cache, shared, todo, open>>
Store(t) == /\ th[t].pc = "store" /\ cache' = [cache EXCEPT ![I(t)] = th[t].obj]
            /\ Set(t, IF Mutant = "lastonly" THEN "store2" ELSE "ask", th[t].obj, 0)
            /\ shared' = [shared EXCEPT !.of = I(t)] /\ out' = <<>> /\ UNCHANGED <<objs, todo, open>>
Store2(t) == /\ th[t].pc = "store2" /\ shared' = [shared EXCEPT !.obj = th[t].obj] /\ Set(t, "ask", th[t].obj, 0)
             /\ out' = <<>> /\ UNCHANGED <<cache, objs, todo, open>>
Ask(t) == /\ th[t].pc = "ask" /\ CanEnd(open, t, <<I(t)>>)
          /\ out' = [i |-> I(t), says |-> IF th[t].obj = 0 THEN <<>> ELSE <<objs[th[t].obj].of, objs[th[t].obj].size>>]
          /\ open' = [open EXCEPT ![t] = IDLE] /\ todo' = [todo EXCEPT ![t] = Tail(@)]
          /\ th' = [th EXCEPT ![t] = Fresh] /\ UNCHANGED <<cache, objs, shared>>
Next == \E t \in 1..NT : (Look(t) \/ Take(t) \/ Setup(t) \/ Make(t) \/ Store(t) \/ Store2(t) \/ Ask(t)) /\ Ran(t)
Spec == Init /\ [][Next]_vars
(* whatever overlaps it, an operation gives the answer it gives alone *)
Answers == out # <<>> => Right(Alone, out.i, out.says)
(* and the map is left giving these answers *)
Done == \A t \in 1..NT : todo[t] = <<>>
Left == Done => \A i \in Tracts : cache[i] # 0 => Right(Alone, i, <<objs[cache[i]].of, objs[cache[i]].size>>)
Export == Done => PrintT("CASE " \o ToJson([prog |-> prog, sched |-> sched]))
View == <<cache, objs, shared, th, todo, open, out>>
=============================================================================
