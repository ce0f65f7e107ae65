----------------------------- MODULE TraceReg -----------------------------
(* Trace specification of registration in real repositories (C23, C24).     *)
EXTENDS Register, TraceBase
VARIABLES l, maps,    \* key -> [nums, sha]
          repo,       \* name -> key, as the specification has it
          sids,       \* name -> identity of the stored map
          hits        \* names for which some registration met a failure
vars == <<l, maps, repo, sids, hits>>
None == [x \in {} |-> 0]

RegBad(e) ==
  LET o == Outcome(repo, e.m, e.name) IN
  IF e.hit THEN {}                                    \* a step failed: any error is fine
  ELSE IF o = "conflict" THEN Chk("C24.conflict", Raised(e, "ConflictingDefinitionError"))
  ELSE Chk(IF o = "same" THEN "C24.idempotent" ELSE "C23.registers", Ok(e)) \cup Chk("C24.succeeds", Ok(e))
RepoAfter(e) == IF e.hit /\ ~Ok(e) THEN repo ELSE After(repo, e.m, e.name)

(* one name of the repository: c = [name, sha, rec, tracts, patches, regions, stored, sid] *)
ContentBad(c) ==
  IF c.name \notin DOMAIN repo THEN {"C24.nothing"}
  ELSE LET m == maps[repo[c.name]] n == Len(m.nums) IN
       Chk("C23.sha", c.sha = m.sha)
       \cup Chk("C23.tractMax", c.rec[1] = SkyRecord(m.nums)[1])
       \cup Chk("C23.patchMax", c.rec[2] = SkyRecord(m.nums)[2] /\ c.rec[3] = SkyRecord(m.nums)[3])
       \cup Chk("C23.tracts", Len(c.tracts) = n /\ Range(c.tracts) = 0..(n - 1))
       \cup Chk("C23.patches", Len(c.patches) = n /\ \A t \in 1..n :
                  /\ Len(c.patches[t]) = m.nums[t][1] * m.nums[t][2]
                  /\ Range(c.patches[t]) = Patches(m.nums[t])
                  /\ \A i \in 1..Len(c.patches[t]) : c.patches[t][i][1] < c.rec[2] * c.rec[3])
       \cup Chk("C23.tractRegions", c.tregions = 0) \cup Chk("C23.patchRegions", c.pregions = 0)
       \cup Chk("C23.stored", c.stored = m.sha /\ c.same /\ c.run = "skymaps")
       \cup Chk("C24.whole", c.name \in hits =>
                  (c.stored = m.sha /\ Len(c.tracts) = n /\ Len(c.patches) = n
                   /\ \A t \in 1..n : Len(c.patches[t]) = m.nums[t][1] * m.nums[t][2]))
       \cup Chk("C24.unchanged", c.name \in DOMAIN sids => sids[c.name] = c.sid)
RepoBad(e) ==
  UNION {ContentBad(e.content[i]) : i \in 1..Len(e.content)}
  \cup Chk("C24.lost", DOMAIN repo \subseteq {e.content[i].name : i \in 1..Len(e.content)})
  \cup Chk("C24.nothing", e.orphans = 0)
(* ids of registered tracts and patches, packed with the limits of the skymap record *)
RpackBad(e) ==
  LET m == maps[repo[e.name]] np == SkyRecord(m.nums)[2] * SkyRecord(m.nums)[3] IN
  Chk("C23.packs", Ok(e) /\ e.val = e.tract * np + e.patch /\ e.back)

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
Init == l = 1 /\ maps = None /\ repo = Nothing /\ sids = None /\ hits = {}
Next ==
  \/ IsEvent("begin") /\ maps' = None /\ repo' = Nothing /\ sids' = None /\ hits' = {}
  \/ IsEvent("map") /\ maps' = (E.k :> [nums |-> E.nums, sha |-> E.sha]) @@ maps /\ UNCHANGED <<repo, sids, hits>>
  \/ IsEvent("reg") /\ Report(l, RegBad(E)) /\ repo' = RepoAfter(E)
     /\ hits' = (IF E.hit THEN hits \cup {E.name} ELSE hits) /\ UNCHANGED <<maps, sids>>
  \/ IsEvent("repo") /\ Report(l, RepoBad(E))
     /\ sids' = [n \in {E.content[i].name : i \in 1..Len(E.content)} |->
                   E.content[CHOOSE i \in 1..Len(E.content) : E.content[i].name = n].sid] /\ UNCHANGED <<maps, repo, hits>>
  \/ IsEvent("rpack") /\ Report(l, RpackBad(E)) /\ UNCHANGED <<maps, repo, sids, hits>>
  \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED <<maps, repo, sids, hits>>
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
