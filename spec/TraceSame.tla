---------------------------- MODULE TraceSame ----------------------------
(* Trace specification of patches and cells as values (C29).  The state   *)
(* holds the grids of the tracts seen, the patches made directly and what *)
(* every object handed out describes; comparisons are judged by that.     *)
EXTENDS Identity, TraceBase
VARIABLES l, grids, things, made
vars == <<l, grids, things, made>>
GridOf(e) == [kind |-> e.c.kind, dx |-> e.c.dx, dy |-> e.c.dy, pb |-> e.c.pb, cw |-> e.c.cw, ch |-> e.c.ch,
              cb |-> e.c.cb, nci |-> e.c.nci, ncb |-> e.c.ncb, nx |-> e.n[1], ny |-> e.n[2]]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Judge(bad) == Report(l, bad)

(* what an object describes when it came from a tract, or was made *)
WantTaken(e) == LET g == grids[e.k] IN
  IF e.kind = "patch" THEN PatchDesc(g, e.p[1], e.p[2]) ELSE CellDesc(g, e.p[1], e.p[2], e.c[1], e.c[2])
Seen(e) == [kind |-> e.kind, idx |-> e.d.idx, inner |-> e.d.inner, outer |-> e.d.outer, n |-> e.d.n, cb |-> e.d.cb]
TakeBad(e) == Chk("C29.describes", Seen(e) = WantTaken(e))
(* direct construction *)
MakeBad(e) ==
  CASE e.args = "notIterable" \/ e.args = "notTwo" -> Chk("C29.cellDims", Raised(e, "ValueError") \/ (~MadeOK(e.m) /\ Raised(e, "RuntimeError")))
    [] ~MadeOK(e.m) -> Chk("C29.mustContain", Raised(e, "RuntimeError"))
    [] ~Ok(e) -> {"C29.makes"}
    [] e.kind = "patch" -> Chk("C29.describes", Seen(e) = Made(e.m) /\ e.seq = e.m.seq /\ e.cdims = <<e.m.cw, e.m.ch>>)
    [] OTHER -> Chk("C29.describes", Seen(e) = [Made(e.m) EXCEPT !.kind = "cell", !.n = <<0, 0>>, !.cb = 0] /\ e.seq = e.m.seq)
(* cells of a patch made directly *)
PartBad(e) ==
  LET m == made[e.k] n == IF m.nci = 0 THEN 0 ELSE m.nci + 2 * m.ncb
      in == e.c[1] >= 0 /\ e.c[1] < n /\ e.c[2] >= 0 /\ e.c[2] < n
  IN IF ~in THEN Chk("C29.partRange", Raised(e, "IndexError"))
     ELSE IF ~Ok(e) THEN {"C29.part"}
     ELSE Chk("C29.part", Seen(e) = MadeCell(m, e.c[1], e.c[2]) /\ e.seq = n * e.c[2] + e.c[1])
(* comparing: a = b, b = a, a # b *)
CmpBad(e) ==
  LET s == Same(things[e.a], things[e.b]) IN
  Chk("C29.equal", e.eq = (IF s THEN "T" ELSE "F"))
  \cup Chk("C29.symmetric", e.qe = e.eq)
  \cup Chk("C29.notEqual", e.ne = (IF s THEN "F" ELSE "T"))
(* an index is a pair *)
IndexBad(e) == Chk("C29.index", e.pair = e.a /\ e.xy = e.a /\ e.eqTuple /\ e.hashTuple /\ ~e.eqSwapped)

Init == l = 1 /\ grids = <<>> /\ things = <<>> /\ made = <<>>
Grid == /\ IsEvent("grid") /\ grids' = (Trace[l].k :> GridOf(Trace[l])) @@ grids /\ UNCHANGED <<things, made>>
Take == /\ IsEvent("take") /\ Judge(TakeBad(Trace[l]))
        /\ things' = (Trace[l].id :> Seen(Trace[l])) @@ things /\ UNCHANGED <<grids, made>>
Make == /\ IsEvent("make") /\ Judge(MakeBad(Trace[l]))
        /\ things' = (IF Ok(Trace[l]) THEN (Trace[l].id :> Seen(Trace[l])) @@ things ELSE things)
        /\ made' = (Trace[l].id :> Trace[l].m) @@ made /\ UNCHANGED grids
Part == /\ IsEvent("part") /\ Judge(PartBad(Trace[l]))
        /\ things' = (IF Ok(Trace[l]) THEN (Trace[l].id :> Seen(Trace[l])) @@ things ELSE things) /\ UNCHANGED <<grids, made>>
Cmp == IsEvent("cmp") /\ Judge(CmpBad(Trace[l])) /\ UNCHANGED <<grids, things, made>>
Index == IsEvent("index") /\ Judge(IndexBad(Trace[l])) /\ UNCHANGED <<grids, things, made>>
Crash == IsEvent("crash") /\ Judge({"ANY.crash"}) /\ UNCHANGED <<grids, things, made>>
Next == Grid \/ Take \/ Make \/ Part \/ Cmp \/ Index \/ Crash
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
