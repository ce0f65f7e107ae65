---------------------------- MODULE TraceBase ----------------------------
(* Reading a recorded trace of the implementation and judging its events. *)
(* Every event carries the facts the harness observed; a clause is a      *)
(* named condition that the specification requires of them.  A trace      *)
(* specification never gets stuck on a failed clause: it prints it (the   *)
(* harness turns it into a verdict) and goes on, so that the rest of the  *)
(* trace is judged as well.                                               *)
EXTENDS Num, Json, IOUtils

BAD == -1999999999
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chk(name, cond) == IF cond THEN {} ELSE {name}
Ok(e) == e.err = <<>>
Raised(e, name) == name \in Range(e.err)
Report(i, bad) == IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(i) \o " " \o ToJson(bad))
(* micro-unit coordinates <<floor, micro>> *)
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PMin(S) == CHOOSE a \in S : \A b \in S : a = b \/ PLess(a, b)
PMax(S) == CHOOSE a \in S : \A b \in S : a = b \/ PLess(b, a)
(* the pixels a coordinate may round to: one, or two next to a pixel edge *)
RoundLo(p) == IF p[2] >= 500002 THEN p[1] + 1 ELSE p[1]
RoundHi(p) == IF p[2] >= 499998 THEN p[1] + 1 ELSE p[1]
RoundSet(p) == {RoundLo(p), RoundHi(p)}
=============================================================================
