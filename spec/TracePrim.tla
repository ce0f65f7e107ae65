----------------------------- MODULE TracePrim -----------------------------
(* Trace specification of catalogues made patch by patch (C34).            *)
EXTENDS Primary, TraceBase
VARIABLES l, grids,   \* tract -> its grid
          objs,       \* object -> [own, at: tract -> pixels it may round to, in: must be found by the search]
          seen,       \* object -> {<<tract, patch>>} in whose parts of the catalogue it is
          prims       \* object -> those where it is primary
vars == <<l, grids, objs, seen, prims>>
None == [x \in {} |-> 0]
GridOf(e) == [nx |-> e.n[1], ny |-> e.n[2], dx |-> e.c.dx, dy |-> e.c.dy, kind |-> e.c.kind, pb |-> e.c.pb,
              cw |-> e.c.cw, ch |-> e.c.ch, cb |-> e.c.cb, nci |-> e.c.nci, ncb |-> e.c.ncb]
(* e.at: [tract, contains, x, y], x and y in micro-pixels *)
Pixels(a) == {<<x, y>> : x \in RoundSet(a[3]), y \in RoundSet(a[4])}
At(e, t) == UNION {{Pixels(e.at[i])} : i \in {j \in 1..Len(e.at) : e.at[j][1] = t}}
AtOf(e) == [t \in {e.at[i][1] : i \in 1..Len(e.at)} |-> CHOOSE X \in At(e, t) : TRUE]
ObjBad(e) ==
  LET at == AtOf(e) IN
  Chk("C34.owner", Ok(e) /\ e.array = e.own /\ e.near[1] = e.own)
  \cup UNION {Chk("C34.contains", e.at[i][2] \in InTract(grids[e.at[i][1]], at[e.at[i][1]])) : i \in 1..Len(e.at)}
  \cup (IF e.own \notin DOMAIN at \/ TRUE \notin InTract(grids[e.own], at[e.own]) THEN {}
        ELSE LET P == PatchesAt(grids[e.own], at[e.own]) IN
             IF ~e.has THEN Chk("C34.contains", FALSE \in InTract(grids[e.own], at[e.own]))
             ELSE Chk("C34.patch", e.patch \in P /\ e.patch \in Range(e.near[2]))
                  \cup Chk("C34.all", e.own \in Range(e.all))
                  \cup Chk("C34.region", e.region))
(* the search must give the primary patch of every object inside *)
Pairs(e) == UNION {{<<e.got[i][1], e.got[i][2][j]>> : j \in 1..Len(e.got[i][2])} : i \in 1..Len(e.got)}
SearchBad(e) ==
  Chk("C34.finds", /\ Ok(e)
                   /\ \A k \in Range(e.inside) : \E p \in PatchesAt(grids[objs[k].own], objs[k].at[objs[k].own]) : <<objs[k].own, p>> \in Pairs(e)
                   /\ Cardinality(Pairs(e)) = Len(e.work))
(* a worker: e.t, e.p, e.seen, e.prim *)
WorkBad(e) ==
  LET g == grids[e.t] known == {k \in DOMAIN objs : e.t \in DOMAIN objs[k].at} IN
  Chk("C34.sees", Ok(e) /\ \A k \in known : (k \in Range(e.seen)) \in InOuter(g, e.p, objs[k].at[e.t]))
  \cup Chk("C34.primary", Ok(e) /\ \A k \in known : (k \in Range(e.prim)) \in {a /\ (objs[k].own = e.t) : a \in InInner(g, e.p, objs[k].at[e.t])})
  \cup Chk("C34.sees", Range(e.seen) \subseteq known)
With(f, e, ks) == [k \in DOMAIN f |-> IF k \in Range(ks) THEN f[k] \cup {<<e.t, e.p>>} ELSE f[k]]
DoneBad(e) ==
  Chk("C34.once", Never2(prims) /\ Once(prims, Range(e.inside)))
  \cup Chk("C34.sees", \A k \in DOMAIN objs : prims[k] \subseteq seen[k])

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
Init == l = 1 /\ grids = None /\ objs = None /\ seen = None /\ prims = None
Next ==
  \/ IsEvent("region") /\ grids' = None /\ objs' = None /\ seen' = None /\ prims' = None
  \/ IsEvent("grid") /\ grids' = (E.t :> GridOf(E)) @@ grids /\ UNCHANGED <<objs, seen, prims>>
  \/ IsEvent("obj") /\ Report(l, ObjBad(E)) /\ objs' = (E.k :> [own |-> E.own, at |-> AtOf(E)]) @@ objs
     /\ seen' = (E.k :> {}) @@ seen /\ prims' = (E.k :> {}) @@ prims /\ UNCHANGED grids
  \/ IsEvent("search") /\ Report(l, SearchBad(E)) /\ UNCHANGED <<grids, objs, seen, prims>>
  \/ IsEvent("work") /\ Report(l, WorkBad(E)) /\ seen' = With(seen, E, E.seen) /\ prims' = With(prims, E, E.prim) /\ UNCHANGED <<grids, objs>>
  \/ IsEvent("done") /\ Report(l, DoneBad(E)) /\ UNCHANGED <<grids, objs, seen, prims>>
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED <<grids, objs, seen, prims>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
