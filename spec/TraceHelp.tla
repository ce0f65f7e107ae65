---------------------------- MODULE TraceHelp ----------------------------
(* Trace specification of the sky geometry helpers (C30): the WCS factory,*)
(* positions from vectors, sky polygons from pixel boxes.                 *)
(* Angles are nano-turns; a step of the WCS is given by its bearing from  *)
(* north through east and its length in ppm of the pixel scale.           *)
EXTENDS TraceBase
VARIABLES l, fac
vars == <<l, fac>>
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Judge(bad) == Report(l, bad)
(* bearing of +y is the rotation; +x is 90 degrees to its right (west of *)
(* north, as seen on the sky), or to its left when flipped               *)
BearingY(f) == Mod1(f.rot)
BearingX(f) == Mod1(f.rot + (IF f.flip THEN QUARTER ELSE -QUARTER))
FactoryBad(e) == IF e.len # 3 THEN Chk("C30.projection", Raised(e, "RuntimeError")) ELSE Chk("C30.factory", Ok(e))
WcsBad(e) ==
  LET f == fac[e.f] IN
  IF ~Ok(e) THEN {"C30.makeWcs"}
  ELSE Chk("C30.reference", e.at <= 2 /\ e.org = e.want)
       \cup Chk("C30.bearing", CircDist(e.by, BearingY(f)) <= 20000 /\ CircDist(e.bx, BearingX(f)) <= 20000)
       \cup Chk("C30.scale", Abs(e.ly - 1000000) <= 20 /\ Abs(e.lx - 1000000) <= 20)
       \* away from the reference: the projection itself, against FITS
       \cup Chk("C30.shape", e.dev <= 50)
VecBad(e) ==
  IF e.pole # 0
  THEN IF e.def = BAD THEN Chk("C30.poleNoRA", Raised(e, "RuntimeError"))
       ELSE Chk("C30.pole", Ok(e) /\ e.lat = (IF e.pole > 0 THEN QUARTER ELSE -QUARTER) /\ CircDist(e.lon, e.def) <= 2)
  ELSE Chk("C30.vector", Ok(e) /\ Abs(e.lat - e.wlat) <= 2 /\ (Abs(e.wlat) < QUARTER - 1000 => CircDist(e.lon, e.wlon) <= 2000))
Corners4(b) == {<<x, y>> : x \in {b[1], b[3]}, y \in {b[2], b[4]}}      \* quarter pixels
BoxpolyBad(e) ==
  IF ~Ok(e) THEN {"C30.polygon"}
  ELSE Chk("C30.polygon", Len(e.pts) = 4 /\ {<<e.pts[i][1], e.pts[i][2]>> : i \in 1..Len(e.pts)} = Corners4(e.b))
       \cup Chk("C30.polygonExact", \A i \in 1..Len(e.pts) : e.pts[i][3] <= 100)
Init == l = 1 /\ fac = <<>>
Factory == /\ IsEvent("factory") /\ Judge(FactoryBad(Trace[l]))
           /\ fac' = (Trace[l].f :> [proj |-> Trace[l].proj, rot |-> Trace[l].rot, flip |-> Trace[l].flip]) @@ fac
Wcs == IsEvent("wcs") /\ Judge(WcsBad(Trace[l])) /\ UNCHANGED fac
Vec == IsEvent("vec") /\ Judge(VecBad(Trace[l])) /\ UNCHANGED fac
Boxpoly == IsEvent("boxpoly") /\ Judge(BoxpolyBad(Trace[l])) /\ UNCHANGED fac
Crash == IsEvent("crash") /\ Judge({"ANY.crash"}) /\ UNCHANGED fac
Next == Factory \/ Wcs \/ Vec \/ Boxpoly \/ Crash
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
==========================================================================
