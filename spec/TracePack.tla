----------------------------- MODULE TracePack -----------------------------
(* Trace specification of packers (C21, C22): construction in every way,    *)
(* packing and unpacking.                                                   *)
EXTENDS Packer, TraceBase
VARIABLES l, ps      \* key -> packer
vars == <<l, ps>>

(* construction: e.nb, e.nt, e.np given or -1, e.dims given or <<>>, e.bands a mapping or "builtin",  *)
(* e.rec = <<tract_max, nx, ny>> of the skymap record or <<>>                                         *)
MapOf(e) == IF e.builtin THEN Mapping("builtin") ELSE e.bands
PackerOf(e) == [nt |-> Limit(e.nt, IF e.rec = <<>> THEN 0 ELSE e.rec[1]),
                dims |-> (IF e.dims # <<>> THEN Range(e.dims) ELSE Dimensions(BandLimit({}, e.nb, MapOf(e)))),
                np |-> Limit(e.np, IF e.rec = <<>> THEN 0 ELSE e.rec[2] * e.rec[3]),
                nb |-> BandLimit(Range(e.dims), e.nb, MapOf(e)), map |-> MapOf(e)]
PkBad(e) ==
  LET p == PackerOf(e) IN
  IF ~DimsOK(Range(e.dims)) THEN Chk("C22.dimensions", Raised(e, "ValueError"))
  ELSE IF ~Ok(e) THEN {"C22.construct"}
  ELSE Chk("C22.hasDimensions", Range(e.got) = p.dims)
       \cup (IF p.nt = 0 \/ p.np = 0 THEN {}              \* (nothing can be packed)
             ELSE Chk("C21.maxBits", e.bits = MaxBits(p)) \cup Chk("C22.limits", e.bits = MaxBits(p)))
PackBad(e) ==
  LET p == ps[e.k] IN
  IF ~Accepts(p, e.id) THEN Chk("C22.rejects", Raised(e, "ValueError"))
  ELSE IF ~Ok(e) THEN {"C21.raises", "C22.accepts"}
  ELSE Chk("C21.value", e.val = Value(p, e.id))
       \cup Chk("C21.fits", ~e.neg /\ Lt(e.val, Pow2(MaxBits(p))))
       \cup Chk("C21.roundTrip", e.backErr = <<>> /\ e.back.tract = e.id.tract /\ e.back.patch = e.id.patch
                                 /\ e.back.band = (IF p.nb = 0 THEN "" ELSE e.id.band) /\ e.sky /\ e.eqid)
       \cup Chk("C21.forms", e.forms)
(* asked again later, with other packers used in between *)
AgainBad(e) ==
  LET p == ps[e.k] IN
  IF ~Ok(e) THEN {"C22.again"}
  ELSE Chk("C22.hasDimensions", Range(e.got) = p.dims) \cup Chk("C21.maxBits", p.nt = 0 \/ p.np = 0 \/ e.bits = MaxBits(p))
UnpackBad(e) ==
  LET p == ps[e.k] IN
  Chk("C21.unpack", Ok(e) /\ e.back.tract = e.id.tract /\ e.back.patch = e.id.patch
                    /\ e.back.band = (IF p.nb = 0 THEN "" ELSE e.id.band) /\ e.sky)
(* options of a configuration and what the field's apply makes of it *)
FieldBad(e) == Chk("C22.configDefault", e.nb = 0 /\ e.none)

IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]
J(op, bad(_)) == IsEvent(op) /\ Report(l, bad(E)) /\ UNCHANGED ps
Init == l = 1 /\ ps = [x \in {} |-> 0]
Next == \/ IsEvent("begin") /\ ps' = [x \in {} |-> 0]
        \/ IsEvent("pk") /\ Report(l, PkBad(E)) /\ ps' = (E.k :> PackerOf(E)) @@ ps
        \/ J("pack", PackBad) \/ J("field", FieldBad)
        \/ J("again", AgainBad) \/ J("unpack", UnpackBad)
        \/ IsEvent("crash") /\ Report(l, {"ANY.crash"}) /\ UNCHANGED ps
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
