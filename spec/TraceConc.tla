----------------------------- MODULE TraceConc -----------------------------
(* Trace specification of registrations by several processes at once (C33): *)
(* the calls, what each was told, what others see in between, must be those *)
(* of some order in which the registrations happen one after the other.     *)
EXTENDS Serial, TraceBase
VARIABLES l, maps,    \* key -> [nums, sha]
          ops,        \* registration -> <<map, name>>, of those under way
          poss,       \* possibilities (Serial)
          sids        \* name -> identity of the stored map, once seen
vars == <<l, maps, ops, poss, sids>>
None == [x \in {} |-> 0]

Kinds(e) == IF Ok(e) THEN {"insert", "same"} ELSE IF e.hit THEN {"no", "insert", "same", "conflict"}
            ELSE IF Raised(e, "ConflictingDefinitionError") THEN {"conflict"} ELSE {}
Told(e) == Returned(Grow(poss, ops), e.p, Kinds(e))
RetBad(e) == Chk("C33.serial", Told(e) # {})
AfterRet(e) == IF Told(e) # {} THEN Told(e) ELSE Ended(Grow(poss, ops), e.p)

KeyOf(c) == LET K == {k \in DOMAIN maps : maps[k].sha = c.sha} IN IF Cardinality(K) = 1 THEN CHOOSE k \in K : TRUE ELSE 0
View(e) == [n \in {e.content[i].name : i \in 1..Len(e.content)} |-> KeyOf(e.content[CHOOSE i \in 1..Len(e.content) : e.content[i].name = n])]
Saw(e) == Seen(Grow(poss, ops), View(e))
(* what is there is there whole *)
ContentBad(c) ==
  IF KeyOf(c) = 0 THEN {"C33.whole"}
  ELSE LET m == maps[KeyOf(c)] n == Len(m.nums) IN
       Chk("C33.whole", /\ c.rec = SkyRecord(m.nums)
                        /\ Len(c.tracts) = n /\ Range(c.tracts) = 0..(n - 1) /\ Len(c.patches) = n
                        /\ \A t \in 1..n : Len(c.patches[t]) = m.nums[t][1] * m.nums[t][2] /\ Range(c.patches[t]) = Patches(m.nums[t])
                        /\ c.tregions = 0 /\ c.pregions = 0 /\ c.stored = m.sha /\ c.same /\ c.run = "skymaps")
       \cup Chk("C33.unchanged", c.name \in DOMAIN sids => sids[c.name] = c.sid)
LookBad(e) == UNION {ContentBad(e.content[i]) : i \in 1..Len(e.content)} \cup Chk("C33.whole", e.orphans = 0)
              \cup Chk("C33.serial", Saw(e) # {})
AfterLook(e) == IF Saw(e) # {} THEN Saw(e) ELSE {[s EXCEPT !.repo = View(e)] : s \in poss}

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
Init == l = 1 /\ maps = None /\ ops = None /\ poss = Start /\ sids = None
Next ==
  \/ IsEvent("begin") /\ maps' = None /\ ops' = None /\ poss' = Start /\ sids' = None
  \/ IsEvent("map") /\ maps' = (E.k :> [nums |-> E.nums, sha |-> E.sha]) @@ maps /\ UNCHANGED <<ops, poss, sids>>
  \/ IsEvent("call") /\ ops' = (E.p :> <<E.m, E.name>>) @@ ops /\ poss' = Called(poss, E.p) /\ UNCHANGED <<maps, sids>>
  \/ IsEvent("ret") /\ Report(l, RetBad(E)) /\ poss' = AfterRet(E)
     /\ ops' = [p \in DOMAIN ops \ {E.p} |-> ops[p]] /\ UNCHANGED <<maps, sids>>
  \/ IsEvent("end") /\ poss' = Ended(Grow(poss, ops), E.p) /\ ops' = [p \in DOMAIN ops \ {E.p} |-> ops[p]] /\ UNCHANGED <<maps, sids>>
  \/ IsEvent("look") /\ Report(l, LookBad(E)) /\ poss' = AfterLook(E)
     /\ sids' = [n \in {E.content[i].name : i \in 1..Len(E.content)} |->
                   E.content[CHOOSE i \in 1..Len(E.content) : E.content[i].name = n].sid] @@ sids /\ UNCHANGED <<maps, ops>>
  \/ IsEvent("stuck") /\ Report(l, {"C33.waits"}) /\ UNCHANGED <<maps, ops, poss, sids>>
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED <<maps, ops, poss, sids>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
