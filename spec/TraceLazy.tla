----------------------------- MODULE TraceLazy -----------------------------
(* Trace specification of tracts made on request (C35).                     *)
EXTENDS Lazy, TraceBase
VARIABLES l, ms,    \* handle -> Lazy
          tok,      \* <<handle, tract>> -> object
          its,      \* iterator -> [h, next] (next = -1: ended)
          ref       \* <<what, i>> -> undisturbed answer
vars == <<l, ms, tok, its, ref>>
None == [x \in {} |-> 0]
M(e) == ms[e.h]
Att(e) == e.att
(* the attempts of an operation, and how it ended *)
Common(e) ==
  LET m == M(e) IN
  Chk("C35.once", Once(m, e.att))
  \cup Chk("C35.onward", Passed(m, e.att))
  \cup Chk("C35.error", IF Failed(m, e.att) THEN Raised(e, e.exc) ELSE Ok(e) \/ e.op = "bad")
Same(e, i) == Ok(e) => (<<e.h, i>> \in DOMAIN tok => tok[<<e.h, i>>] = e.tok)
GetBad(e) == Common(e) \cup Chk("C35.request", Requested(M(e), e.i, e.att))
             \cup Chk("C35.same", (Ok(e) => e.id = e.i) /\ Same(e, e.i))
BadBad(e) == Chk("C35.request", e.att = <<>>) \cup Chk("C35.range", Raised(e, "IndexError"))
QuietBad(e) == Common(e) \cup Chk("C35.request", e.att = <<>>)
FindBad(e) == Common(e) \cup Chk("C35.request", e.one => Within(e.att, {e.want}))
              \cup Chk("C35.same", (Ok(e) => e.id = e.want) /\ Same(e, e.want))
ArrayBad(e) == Common(e) \cup Chk("C35.request", e.one => Within(e.att, Range(e.want)))
               \cup Chk("C35.answers", Ok(e) => e.ids = e.want)
AllBad(e) == Common(e) \cup Chk("C35.answers", Ok(e) => e.dig = ref[<<"s", e.i>>])
QueryBad(e) == Common(e) \cup Chk("C35.request", Requested(M(e), e.i, e.att))
               \cup Chk("C35.answers", Ok(e) => e.dig = ref[<<"t", e.i>>])
StepBad(e) ==
  LET it == its[e.t] m == ms[e.h] IN
  IF it.next = -1 \/ it.next = m.n
  THEN Chk("C35.stop", e.stop /\ Ok(e) /\ e.att = <<>>)
  ELSE Common(e) \cup Chk("C35.stop", ~e.stop) \cup Chk("C35.request", Requested(m, it.next, e.att))
       \cup Chk("C35.same", Ok(e) /\ ~e.stop => e.id = it.next /\ Same(e, it.next))
CopyBad(e) == Chk("C35.copy", Ok(e) /\ e.att = <<>>)
(* a map whose tracts cannot be made is not registered at all *)
RegBad(e) == Common(e) \cup Chk("C35.registered", e.there = ~Failed(M(e), e.att))

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
Upd == ms' = [ms EXCEPT ![E.h] = After(@, E.att)]
Keep(i) == tok' = IF Ok(E) /\ <<E.h, i>> \notin DOMAIN tok THEN (<<E.h, i>> :> E.tok) @@ tok ELSE tok
Init == l = 1 /\ ms = None /\ tok = None /\ its = None /\ ref = None
Next ==
  \/ IsEvent("begin") /\ ms' = None /\ tok' = None /\ its' = None /\ ref' = None
  \/ IsEvent("new") /\ Report(l, Chk("C35.request", E.att = <<>>)) /\ ms' = (E.h :> Blank(E.n, {})) @@ ms /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("ref") /\ ref' = (<<E.what, E.i>> :> E.dig) @@ ref /\ UNCHANGED <<ms, tok, its>>
  \/ IsEvent("copy") /\ Report(l, CopyBad(E)) /\ ms' = (E.h2 :> Blank(M(E).n, M(E).done)) @@ ms /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("arm") /\ ms' = [ms EXCEPT ![E.h].arm[E.i] = E.times] /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("get") /\ Report(l, GetBad(E)) /\ Upd /\ Keep(E.i) /\ UNCHANGED <<its, ref>>
  \/ IsEvent("bad") /\ Report(l, BadBad(E)) /\ UNCHANGED <<ms, tok, its, ref>>
  \/ IsEvent("quiet") /\ Report(l, QuietBad(E)) /\ Upd /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("find") /\ Report(l, FindBad(E)) /\ Upd /\ Keep(E.want) /\ UNCHANGED <<its, ref>>
  \/ IsEvent("array") /\ Report(l, ArrayBad(E)) /\ Upd /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("all") /\ Report(l, AllBad(E)) /\ Upd /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("query") /\ Report(l, QueryBad(E)) /\ Upd /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("iter") /\ its' = (E.t :> [h |-> E.h, next |-> 0]) @@ its /\ Report(l, Chk("C35.request", E.att = <<>>)) /\ UNCHANGED <<ms, tok, ref>>
  \/ IsEvent("step") /\ Report(l, StepBad(E)) /\ Upd
     /\ tok' = (IF Ok(E) /\ ~E.stop /\ <<E.h, E.id>> \notin DOMAIN tok THEN (<<E.h, E.id>> :> E.tok) @@ tok ELSE tok)
     /\ its' = [its EXCEPT ![E.t].next = IF @ = -1 THEN @ ELSE IF ~Ok(E) THEN -1 ELSE IF @ < ms[E.h].n THEN @ + 1 ELSE @]
     /\ UNCHANGED ref
  \/ IsEvent("register") /\ Report(l, RegBad(E)) /\ Upd /\ UNCHANGED <<tok, its, ref>>
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED <<ms, tok, its, ref>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
