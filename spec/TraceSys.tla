----------------------------- MODULE TraceSys -----------------------------
(* Trace specification of families of live sky maps: the schedules of      *)
(* MCSkySystem replayed on the real classes (C05, C06, C07, C09).          *)
(* State: the maps of SkySystem, what else was seen of each, the answers   *)
(* of undisturbed maps, and the iterations in progress.                    *)
EXTENDS SkySystem, TraceBase
VARIABLES l, maps,   \* handle -> SkySystem map
          seen,      \* handle -> [sha, hash, cfg, clone, touched, ver, cls, g]
          refs,      \* <<c, what, i>> -> answer of a map nobody else touched
          its        \* iterator -> [h, next, done]
vars == <<l, maps, seen, refs, its>>
EmptyF == [x \in {} |-> 0]

(* the clauses a wrong answer breaks *)
Names(h, what) == {"C05." \o what} \cup (IF seen[h].clone THEN {"C07." \o what} ELSE {})
                                   \cup (IF seen[h].touched THEN {"C09." \o what} ELSE {})
Key(e, what) == ToString(maps[e.h].c) \o what \o ToString(e.i)
Answers(e, what) == e.dig = refs[Key(e, what)]
----------------------------------------------------------------- (* new *)
NewBad(e) ==
  LET same == {h \in DOMAIN maps : maps[h].c = e.c}
      diff == {h \in DOMAIN maps : seen[h].g # e.g}   \* other options
  IN Chk("C06.len", e.len = e.n)
     \cup Chk("C08.stable", \A h \in same : seen[h].sha = e.sha /\ seen[h].hash = e.hash)
     \cup Chk("C08.distinct", \A h \in diff : seen[h].sha # e.sha)
Info(e, clone, touched) == [sha |-> e.sha, hash |-> e.hash, cfg |-> e.cfg, clone |-> clone, touched |-> touched, ver |-> e.ver, cls |-> e.cls, g |-> e.g]
----------------------------------------------------- (* access by index *)
GetBad(e) ==
  LET m == maps[e.h] IN
  IF GetErr(m, e.i)
  THEN IF m.lazy \/ e.i >= m.n THEN Chk("C06.range", Raised(e, "IndexError")) \cup Chk("C06.len", e.len = m.n) ELSE {}
  ELSE IF ~Ok(e) THEN {"C06.raises"}
  ELSE Chk("C06.id", e.id = e.i) \cup Chk("C06.same", TokenOK(m, e.i, e.tok)) \cup Chk("C06.own", TokenFree(maps, e.h, e.i, e.tok))
       \cup Chk("C06.len", e.len = m.n)
See(h, i, e) == IF Ok(e) /\ InRange(maps[h], i) /\ maps[h].objs[i] = NONE
                THEN [maps EXCEPT ![h] = Seen(@, i, e.tok)] ELSE maps
QueryBad(e) == IF ~Ok(e) THEN Names(e.h, "raises") ELSE IF Answers(e, "t") THEN {} ELSE Names(e.h, "tract")
HeldBad(e) == IF ~Ok(e) THEN Names(e.h, "raises")
              ELSE IF Answers(e, "t") /\ e.pdig = refs[Key(e, "p")] THEN {} ELSE Names(e.h, "held")
FindBad(e) ==
  IF ~Ok(e) THEN Names(e.h, "raises")
  ELSE (IF Answers(e, "f") THEN {} ELSE Names(e.h, "find"))
       \cup (IF InRange(maps[e.h], e.id)
             THEN Chk("C06.same", TokenOK(maps[e.h], e.id, e.tok)) \cup Chk("C06.own", TokenFree(maps, e.h, e.id, e.tok))
             ELSE {"C06.id"})
SearchBad(e) == IF ~Ok(e) THEN Names(e.h, "raises") ELSE IF Answers(e, "s") THEN {} ELSE Names(e.h, "search")
------------------------------------------------------ (* iteration *)
StepBad(e) ==
  LET it == its[e.t] m == maps[it.h] IN
  IF ~Ok(e) THEN {"C06.iterRaises"}
  ELSE IF e.stop THEN Chk("C06.iterStop", it.next = m.n)
  ELSE IF it.next >= m.n THEN {"C06.iterStop"}
  ELSE Chk("C06.iterOrder", e.id = it.next) \cup Chk("C06.same", TokenOK(m, it.next, e.tok))
       \cup Chk("C06.own", TokenFree(maps, it.h, it.next, e.tok))
----------------------------------------------------- (* copies and pickles *)
CloneBad(e) ==
  LET a == seen[e.h] m == maps[e.h] IN
  IF ~Ok(e) THEN {"C07.raises"}
  ELSE Chk("C07.class", e.cls = a.cls) \cup Chk("C07.version", e.ver = a.ver)
       \cup Chk("C07.config", e.cfg = a.cfg) \cup Chk("C07.hash", e.sha = a.sha /\ e.hash = a.hash)
       \cup Chk("C07.equal", e.eq) \cup Chk("C07.len", e.len = m.n)
(* the same in a process of its own *)
ForeignBad(e) ==
  LET a == seen[e.h] m == maps[e.h] IN
  IF ~Ok(e) THEN {"C07.raises"}
  ELSE Chk("C07.class", e.cls = a.cls) \cup Chk("C07.version", e.ver = a.ver) \cup Chk("C07.config", e.cfg = a.cfg)
       \cup Chk("C07.hash", e.sha = a.sha) \cup Chk("C08.process", e.sha = a.sha)
       \cup Chk("C07.len", e.len = m.n) \cup Chk("C07.tract", Answers(e, "t")) \cup Chk("C07.find", e.find = refs[Key(e, "f")])
(* state of a newer version is refused, of this or an older minor version is read *)
FutureBad(e) ==
  IF e.ver[1] >= 2 THEN Chk("C07.future", Raised(e, "RuntimeError"))
  ELSE Chk("C07.past", Ok(e) /\ e.sha = seen[e.h].sha)
------------------------------------------------------ (* modification *)
SetBad(e) == Chk("C09.frozen", ~Ok(e))
StateBad(e) ==
  LET a == seen[e.h] m == maps[e.h] IN
  Chk("C09.state", e.sha = a.sha /\ e.cfg = a.cfg /\ e.len = m.n /\ e.hash = a.hash)
  \cup Chk("C08.anytime", e.sha = a.sha /\ e.hash = a.hash)
Touched(h) == [seen EXCEPT ![h].touched = TRUE]

----------------------------------------------------------------- (* spec *)
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Keep == UNCHANGED <<maps, seen, refs, its>>
Init == l = 1 /\ maps = EmptyF /\ seen = EmptyF /\ refs = EmptyF /\ its = EmptyF
Next ==
  \/ IsEvent("begin") /\ maps' = EmptyF /\ seen' = EmptyF /\ refs' = EmptyF /\ its' = EmptyF
  \/ IsEvent("new") /\ Report(l, NewBad(E)) /\ maps' = (E.h :> Fresh(E.c, E.n, E.lazy)) @@ maps
     /\ seen' = (E.h :> Info(E, FALSE, FALSE)) @@ seen /\ UNCHANGED <<refs, its>>
  \/ IsEvent("ref") /\ refs' = ((ToString(E.c) \o E.what \o ToString(E.i)) :> E.dig) @@ refs /\ UNCHANGED <<maps, seen, its>>
  \/ IsEvent("get") /\ Report(l, GetBad(E)) /\ maps' = See(E.h, E.i, E) /\ UNCHANGED <<seen, refs, its>>
  \/ IsEvent("query") /\ Report(l, QueryBad(E)) /\ Keep
  \/ IsEvent("held") /\ Report(l, HeldBad(E)) /\ Keep
  \/ IsEvent("find") /\ Report(l, FindBad(E)) /\ maps' = See(E.h, E.id, E) /\ UNCHANGED <<seen, refs, its>>
  \/ IsEvent("search") /\ Report(l, SearchBad(E)) /\ Keep
  \/ IsEvent("iter") /\ its' = (E.t :> [h |-> E.h, next |-> 0]) @@ its /\ UNCHANGED <<maps, seen, refs>>
  \/ IsEvent("step") /\ Report(l, StepBad(E)) /\ maps' = (IF E.stop THEN maps ELSE See(its[E.t].h, its[E.t].next, E))
     /\ its' = (IF E.stop THEN its ELSE [its EXCEPT ![E.t].next = @ + 1]) /\ UNCHANGED <<seen, refs>>
  \/ IsEvent("clone") /\ Report(l, CloneBad(E))
     /\ (IF Ok(E) THEN /\ maps' = (E.h2 :> Fresh(maps[E.h].c, maps[E.h].n, maps[E.h].lazy)) @@ maps
                       /\ seen' = (E.h2 :> [seen[E.h] EXCEPT !.clone = TRUE]) @@ seen
         ELSE UNCHANGED <<maps, seen>>) /\ UNCHANGED <<refs, its>>
  \/ IsEvent("foreign") /\ Report(l, ForeignBad(E)) /\ Keep
  \/ IsEvent("future") /\ Report(l, FutureBad(E)) /\ Keep
  \/ IsEvent("set") /\ Report(l, SetBad(E)) /\ seen' = Touched(E.h) /\ UNCHANGED <<maps, refs, its>>
  \/ IsEvent("drop") /\ Keep       \* (its iterations may go on)
  \/ IsEvent("mutate") /\ seen' = Touched(E.h) /\ UNCHANGED <<maps, refs, its>>
  \/ IsEvent("state") /\ Report(l, StateBad(E)) /\ Keep
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ Keep
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
