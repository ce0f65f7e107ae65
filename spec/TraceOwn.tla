------------------------------ MODULE TraceOwn ------------------------------
(* Trace specification of maps and tract builders of a user's own (C36).    *)
EXTENDS Numbering, TraceBase
VARIABLE l
(* what the own map says, and what the map of the package with these tracts says *)
PairBad(e) == Chk("C36.same", Ok(e) /\ e.a = e.b /\ e.a # "")
(* class and options are in the hash, however the map was written *)
KinBad(e) == Chk("C36.hash", Ok(e) /\ e.eq = e.want /\ (e.eq = (e.sha1 = e.sha2)) /\ e.ne = ~e.eq)
NumBad(e) ==
  Chk("C36.numbers", /\ Ok(e)
    /\ \A i \in 1..Len(e.rows) : LET r == e.rows[i] s == Seq2(e.kind, e.nx, e.ny, r[1], r[2]) IN
         /\ r[3] = s /\ r[4] = s /\ r[5] = s            \* of the patch, of the tract, of the pair
         /\ r[6] = r[1] /\ r[7] = r[2]                  \* and back
         /\ r[8] = r[1] /\ r[9] = r[2])                 \* the patch of this number
  \cup Chk("C36.visit", Ok(e) /\ e.n = e.nx * e.ny /\ e.visit = Visit(e.nx, e.ny))
RecBad(e) == Chk("C36.records", Ok(e) /\ Range(e.rows) = Records(e.kind, e.nx, e.ny) /\ Len(e.rows) = e.nx * e.ny)
(* a map that finds tracts in its own way: arrays and lists do as well *)
AgreeBad(e) == Chk("C36.lookup", Ok(e) /\ e.array = e.want
                     /\ \A j \in 1..Len(e.near) : IF e.has[j] THEN e.near[j] = <<e.want[j]>> ELSE Range(e.near[j]) \subseteq {e.want[j]})
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
Init == l = 1
Next ==
  \/ IsEvent("pair") /\ Report(l, PairBad(E))
  \/ IsEvent("kin") /\ Report(l, KinBad(E))
  \/ IsEvent("numbers") /\ Report(l, NumBad(E))
  \/ IsEvent("records") /\ Report(l, RecBad(E))
  \/ IsEvent("agree") /\ Report(l, AgreeBad(E))
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"})
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
