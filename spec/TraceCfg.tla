----------------------------- MODULE TraceCfg -----------------------------
(* Trace specification of configurations: equality and hashes of maps,     *)
(* validation, defaults, registries, saving and loading (C08, C27).        *)
EXTENDS Config, TraceBase
VARIABLES l, maps     \* key -> [cls, opts, sha, hash] of the maps of this unit
vars == <<l, maps>>

Same(a, b) == SameGeometry(a.cls, a.opts, b.cls, b.opts)
(* the configuration a map ends up with is the given one *)
Reached(e) == \A o \in AllOptions(e.cls) : e.opts[o] = e.given[o]
CmapBad(e) ==
  IF ~Ok(e) THEN {"C08.raises"}
  ELSE Chk("C08.sha1Length", e.n20 = 20)
       \cup Chk("C08.anytime", e.sha = e.sha2)
       \cup Chk("C27.reach", Reached(e))
       \cup Chk("C08.equal", \A k \in DOMAIN maps : Same(maps[k], e) => (maps[k].sha = e.sha /\ maps[k].hash = e.hash))
       \cup Chk("C08.distinct", \A k \in DOMAIN maps : ~Same(maps[k], e) => maps[k].sha # e.sha)
CmapOf(e) == [cls |-> e.cls, opts |-> e.opts, sha |-> e.sha, hash |-> e.hash]
PairBad(e) ==
  IF ~Ok(e) THEN {"C08.raises"}
  ELSE LET s == Same(maps[e.a], maps[e.b]) IN
       Chk(IF s THEN "C08.equal" ELSE "C08.distinct", e.eq = s /\ e.rev = s)
       \cup Chk("C08.ne", e.ne = ~e.eq)
(* comparison with something else than a map *)
OtherBad(e) == Chk("C08.foreign", Ok(e) /\ ~e.eq /\ e.ne)
(* the same configuration by another way *)
WayBad(e) ==
  IF ~Ok(e) THEN {"C27." \o e.way}
  ELSE Chk("C27." \o e.way, e.cls = maps[e.k].cls /\ e.eq /\ e.sha = maps[e.k].sha
                            /\ \A o \in AllOptions(e.cls) : e.opts[o] = maps[e.k].opts[o])
DefaultsBad(e) == Chk("C27.defaults", Ok(e) /\ \A o \in AllOptions(e.cls) : e.opts[o] = Default(e.cls, o))
NamesBad(e) == Chk("C27.registry", Range(e.names) = (IF e.which = "maps" THEN Classes ELSE Builders))
ValidBad(e) == IF ValidValue(e.f, e.v) THEN Chk("C27.accepts", Ok(e)) ELSE Chk("C27.rejects", ~Ok(e))
ShortBad(e) == Chk("C27.shortcut", Ok(e) /\ e.short = e.want /\ e.legacy = e.want)

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
J(op, bad(_)) == IsEvent(op) /\ Report(l, bad(E)) /\ UNCHANGED maps
Init == l = 1 /\ maps = [x \in {} |-> 0]
Next == \/ IsEvent("begin") /\ maps' = [x \in {} |-> 0]
        \/ IsEvent("cmap") /\ Report(l, CmapBad(E)) /\ maps' = (IF Ok(E) THEN (E.k :> CmapOf(E)) @@ maps ELSE maps)
        \/ J("pair", PairBad) \/ J("other", OtherBad) \/ J("way", WayBad) \/ J("defaults", DefaultsBad)
        \/ J("names", NamesBad) \/ J("valid", ValidBad) \/ J("short", ShortBad)
        \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED maps
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
