----------------------------- MODULE TraceMap -----------------------------
(* Trace specification of whole sky maps: which tracts there are, where    *)
(* they are, and how positions find them (C10-C14, C17, C20, C25, C26,     *)
(* C28).  The state binds every map seen so far to its pixelization, as    *)
(* the specification derives it from the configuration.                    *)
EXTENDS Rings, Healpix, TraceBase
VARIABLES l, maps
vars == <<l, maps>>

Near(a, b, tol) == Abs(a - b) <= tol
NearLon(a, b, tol) == a # BAD /\ CircDist(a, b) <= tol
AtPole(lat) == Abs(Abs(lat) - QUARTER) <= 3
(* a recorded position <<lon, lat>> against an expected one *)
NearPos(p, lon, lat, tol) == Near(p[2], lat, tol) /\ (AtPole(lat) \/ NearLon(p[1], lon, tol))

------------------------------------------------------------ (* rings *)
RMapBad(e) ==
  Chk("C10.counts", Len(e.counts) = e.n /\ \A r \in 1..Len(e.counts) : e.counts[r] \in RingCounts(e.n, r - 1))
  \cup Chk("C10.rounded", \A r \in 1..Min2(Len(e.counts), Len(e.ref)) : Cardinality(RingCounts(e.n, r - 1)) > 1 => e.counts[r] = e.ref[r])
  \cup Chk("C10.len", e.len = SumSeq(e.counts) + 2)
RMapOf(e) == [cls |-> "rings", n |-> e.n, ver |-> e.ver, ra0 |-> e.ra0, nums |-> e.counts, len |-> SumSeq(e.counts) + 2]
(* getRingIndices: in range, the numbering; outside, IndexError *)
RIdxBad(e) ==
  LET m == maps[e.k] IN
  IF e.i < 0 \/ e.i >= m.len THEN Chk("C10.range", Raised(e, "IndexError"))
  ELSE Chk("C10.numbering", Ok(e) /\ e.res = RingOfIndex(m.nums, m.ver, e.i))
RTractBad(e) ==
  LET m == maps[e.k]
      q == RingOfIndex(m.nums, m.ver, e.i)
      r == q[1]
      cap == r \in {-1, m.n}
      dec == IF r = -1 THEN -QUARTER ELSE IF r = m.n THEN QUARTER ELSE RingDec(m.n, r)
      ra == IF cap THEN 0 ELSE TractRa(m.nums, m.ra0, r, q[2])
      dlo == IF r = -1 THEN -QUARTER ELSE HalfRingEdge(m.n, 2 * r + 1)
      dhi == IF r = m.n THEN QUARTER ELSE HalfRingEdge(m.n, 2 * r + 3)
      \* recorded <<ramin, ramax, decmin, decmax>>
      RangeOK(g) == /\ Near(g[3], dlo, 4) /\ Near(g[4], dhi, 4)
                    /\ IF cap THEN Near(g[1], 0, 4) /\ Near(g[2], TURN, 4)
                       ELSE NearLon(g[1], RaEdgeLo(m.nums, m.ra0, r, q[2]), 4) /\ NearLon(g[2], RaEdgeHi(m.nums, m.ra0, r, q[2]), 4)
  IN Chk("C10.centre", NearPos(e.ctr, ra, dec, 4))
     \cup Chk("C10.id", e.id = e.i)
     \cup Chk("C11.raDecRange", e.rngErr = <<>> /\ RangeOK(e.rng))
     \cup Chk("C11.region", e.regErr = <<>> /\ RangeOK(e.reg))
     \cup Chk("C11.centreInRegion", e.regctr)
(* findTract of a rings map *)
RFindBad(e) ==
  LET m == maps[e.k]
      miss == \E r \in RingsAt(m.n, e.pos[2], 5) : \E j \in PosAt(m.nums, m.ra0, r, e.pos[1], 5) : Missing(m.nums, m.ver, r, j)
  IN IF ~Ok(e) THEN {"C11.findRaises"}
     ELSE IF miss THEN Chk("C11.findValid", e.id \in 0..(m.len - 1))
     ELSE Chk("C11.find", Same(m.nums, m.ver, e.id) \in TractsAt(m.nums, m.ver, m.ra0, e.pos[1], e.pos[2], 5))

------------------------------------------- (* vectorised lookup (C12) *)
ArrBad(e) ==
  LET m == maps[e.k]
      nn == Len(e.want)
      Alike(i) == \/ e.ids[i] = e.want[i]
                  \/ /\ m.cls = "rings"       \* next to an edge: both on the edge
                     /\ LET S == TractsAt(m.nums, m.ver, m.ra0, e.pos[i][1], e.pos[i][2], 2) IN
                        Same(m.nums, m.ver, e.ids[i]) \in S /\ Same(m.nums, m.ver, e.want[i]) \in S
  IN IF ~Ok(e) THEN {"C12.raises"}
     ELSE Chk("C12.length", Len(e.ids) = nn)
          \cup Chk("C12.ids", Len(e.ids) = nn => \A i \in 1..nn : Alike(i))
          \cup Chk("C12.unmodified", e.same)

(* long arrays made of positions whose tracts are known: elements that differ *)
LongBad(e) == IF ~Ok(e) THEN {"C12.raises"} ELSE Chk("C12.length", e.got = e.n) \cup Chk("C12.long", e.wrong = <<>>)

------------------------------------------------- (* findAllTracts (C13) *)
FatBad(e) ==
  LET m == maps[e.k]
      S(x) == Same(m.nums, m.ver, x)
      got == {S(e.got[i]) : i \in 1..Len(e.got)}
      all == {S(e.all[i]) : i \in 1..Len(e.all)}
  IN IF ~Ok(e) THEN {"C13.raises"}
     ELSE Chk("C13.all", all \subseteq got)
          \cup Chk("C13.only", got \subseteq all)
          \cup Chk("C13.once", Cardinality(got) = Len(e.got))
          \cup Chk("C13.own", m.ver = 1 => (e.own \in Range(e.all) => e.own \in Range(e.got)))

--------------------------------------------------- (* nearest centre (C14) *)
EMapBad(e) == Chk("C26.len", e.len = e.num)
EMapOf(e) == [cls |-> "equat", num |-> e.num, dec0 |-> e.dec0, dec1 |-> e.dec1, len |-> e.num]
DMapBad(e) == Chk("C26.len", e.len = Len(e.ras))
DMapOf(e) == [cls |-> "discrete", ras |-> e.ras, decs |-> e.decs, len |-> Len(e.ras)]
HMapBad(e) == Chk("C26.len", e.len = NPix(e.ns))
HMapOf(e) == [cls |-> "healpix", ns |-> e.ns, nest |-> e.nest, len |-> NPix(e.ns)]
EquCentre(m, i) == MulDiv(TURN, 2 * i + 1, 2 * m.num)
FindBad(e) ==
  LET m == maps[e.k] IN
  IF ~Ok(e) THEN {"C14.raises"}
  ELSE IF e.id \notin 0..(m.len - 1) THEN {"C14.valid"}
  ELSE CASE m.cls = "discrete" ->       \* separations from the configured centres, in nano-turns
              Chk("C14.nearest", /\ \A i \in 1..Len(e.seps) : e.seps[e.id + 1] <= e.seps[i] + 2
                                 \* in pico-turns, where all are near
                                 /\ \A i \in 1..Len(e.fine) : e.fine[e.id + 1] <= e.fine[i] + 2)
         [] m.cls = "equat" ->
              Chk("C14.nearest", \/ Abs(e.pos[2]) > QUARTER - 30000
                                 \/ \A i \in 0..(m.num - 1) :
                                      CircDist(e.pos[1], EquCentre(m, e.id)) <= CircDist(e.pos[1], EquCentre(m, i)) + 6)
         [] m.cls = "dodeca" ->
              Chk("C14.nearest", LET u == UnitVec(e.pos[1], e.pos[2]) IN
                    \A i \in 1..12 : Dot(u, m.faces[e.id + 1]) >= Dot(u, m.faces[i]) - 150)
         [] m.cls = "healpix" ->
              Chk("C14.pixel", e.id \in {Index(m.ns, m.nest, p) : p \in PixelsAt(m.ns, Mod1(e.pos[1]), -e.pos[2], 150)})
         [] OTHER -> {"C14.unknown"}
(* the centre of a healpix tract is found as itself *)
SelfBad(e) == Chk("C14.self", Ok(e) /\ e.id = e.i)

------------------------------------------- (* tract-and-patch search (C17) *)
(* e.got: sequence of <<tract, patches>>; e.per[i + 1]: patches found by tract i; e.con: tracts containing a position *)
TplBad(e) ==
  LET m == maps[e.k]
      S(x) == IF m.cls = "rings" THEN Same(m.nums, m.ver, x) ELSE x
      ids == [i \in 1..Len(e.got) |-> S(e.got[i][1])]
      want == {S(t) : t \in {u \in (IF m.cls = "rings" THEN Range(e.con) ELSE 0..(m.len - 1)) : e.per[u + 1] # <<>>}}
  IN IF ~Ok(e) THEN {"C17.raises"}
     ELSE Chk("C17.once", Distinct(ids))
          \cup Chk("C17.tracts", Range(ids) = want)
          \cup Chk("C17.patches", \A i \in 1..Len(e.got) : e.got[i][1] \in 0..(m.len - 1)
                                     /\ e.got[i][2] = e.per[e.got[i][1] + 1] /\ e.got[i][2] # <<>>)
RECURSIVE FirstSeen(_, _)
FirstSeen(s, seen) == IF s = <<>> THEN <<>>
                      ELSE IF Head(s) \in seen THEN FirstSeen(Tail(s), seen)
                      ELSE <<Head(s)>> \o FirstSeen(Tail(s), seen \cup {Head(s)})
CtplBad(e) ==
  LET m == maps[e.k]
      want == SelectSeq(FirstSeen(e.ids, {}), LAMBDA t : e.per[t + 1] # <<>>)
  IN IF ~Ok(e) THEN {"C17.closestRaises"}
     ELSE Chk("C17.closestTracts", [i \in 1..Len(e.got) |-> e.got[i][1]] = want)
          \cup Chk("C17.closestPatches", \A i \in 1..Len(e.got) : e.got[i][1] \in 0..(m.len - 1)
                                     /\ e.got[i][2] = e.per[e.got[i][1] + 1])

--------------------------------------------------- (* dodecahedron (C20) *)
SQ5 == 44721360                             \* 1/sqrt(5)
DTOL == 6
Neg(v) == <<-v[1], -v[2], -v[3]>>
VNear(u, v) == \A a \in 1..3 : Near(u[a], v[a], DTOL)
Unit(v) == Near(Dot(v, v), ONE, 12)
LonOf30(u, k) == \* the longitude of a vector off the axis is k/30 of a turn: cross product zero, same side
  LET c == CosNt(MulDiv(TURN, k, 30)) s == SinNt(MulDiv(TURN, k, 30)) IN
  Near(FixMul(u[1], s), FixMul(u[2], c), 80) /\ FixMul(u[1], c) + FixMul(u[2], s) > 0
(* z and longitude (thirtieths of a turn) of face i, derived from the regular dodecahedron *)
FaceZ(poles, i) ==
  IF poles THEN (IF i = 0 THEN ONE ELSE IF i = 11 THEN -ONE ELSE IF i <= 5 THEN SQ5 ELSE -SQ5)
  ELSE (CASE i <= 2 -> 79465447 [] i \in 3..5 -> 18759247 [] i \in 6..8 -> -18759247 [] OTHER -> -79465447)
FaceLon30(poles, i) ==
  IF poles THEN (IF i \in {0, 11} THEN 0 ELSE IF i <= 5 THEN 6 * (i - 1) ELSE 3 + 6 * (i - 6))
  ELSE (CASE i <= 2 -> 10 * i [] i \in 3..5 -> 5 + 10 * (i - 3) [] i \in 6..8 -> 10 * (i - 6) [] OTHER -> 5 + 10 * (i - 9))
DodecBad(e) ==
  LET f == e.faces
      V == [i \in 1..12 |-> e.verts[i]]
      Opp(i) == \E j \in 1..12 : VNear(f[i], Neg(f[j]))
      Nb(i) == {j \in 1..12 : Near(Dot(f[i], f[j]), SQ5, 20)}
  IN Chk("C20.count", Len(f) = 12 /\ Len(e.verts) = 12)
     \cup Chk("C20.unit", \A i \in 1..12 : Unit(f[i]) /\ Opp(i))
     \cup Chk("C20.neighbours", \A i \in 1..12 : Cardinality(Nb(i)) = 5)
     \cup Chk("C20.order", \A i \in 1..12 : Near(f[i][3], FaceZ(e.poles, i - 1), 20)
                               /\ (Abs(f[i][3]) > ONE - 100 \/ LonOf30(f[i], FaceLon30(e.poles, i - 1))))
     \cup Chk("C20.poles", IF e.poles THEN VNear(f[1], <<0, 0, ONE>>) /\ VNear(f[12], <<0, 0, -ONE>>)
                           ELSE \E i, j \in 1..12, a, b \in 1..5 : VNear(V[i][a], <<0, 0, ONE>>) /\ VNear(V[j][b], <<0, 0, -ONE>>))
     \cup Chk("C20.vertices", \A i \in 1..12 : /\ Len(V[i]) = 5
                               /\ \A a \in 1..5 : Unit(V[i][a]) /\ Near(Dot(V[i][a], f[i]), 79465447, 20)
                               /\ \A b, c \in 1..5 : b # c => ~VNear(V[i][b], V[i][c])
                               /\ \A d \in 1..5 : Near(Dot(V[i][d], V[i][(d % 5) + 1]), 74535599, 20))
     \cup Chk("C20.shared", \A i \in 1..12, a \in 1..5 :
                               Cardinality({j \in 1..12 : \E b \in 1..5 : VNear(V[i][a], V[j][b])}) = 3)
     \cup Chk("C20.forms", e.forms)
DodecOf(e) == [cls |-> "dodeca", faces |-> e.faces, verts |-> e.verts, len |-> 12]
FaceBad(e) ==
  LET f == maps[e.k].faces IN
  Chk("C20.face", Ok(e) /\ e.ind \in 0..11
        /\ \A i \in 1..12 : Dot(e.v, f[e.ind + 1]) >= Dot(e.v, f[i]) - 20)
  \cup Chk("C20.argument", e.kept)

------------------------------------------------------- (* coverage (C25) *)
CoverBad(e) == Chk("C25.tract", e.con = "T") \cup Chk("C25.patch", e.patch)

------------------------------------------------ (* where tracts are (C26) *)
EqtBad(e) ==
  LET m == maps[e.k]
      r0 == MulDiv(TURN, e.i, m.num)
      r1 == MulDiv(TURN, e.i + 1, m.num)
      mid == (m.dec0 + m.dec1) \div 2
      C == <<<<r0, m.dec0>>, <<r1, m.dec0>>, <<r1, m.dec1>>, <<r0, m.dec1>>>>
      Found(p) == \E i \in 1..Len(e.verts) : NearPos(e.verts[i], p[1], p[2], 4)
  IN Chk("C26.id", e.id = e.i)
     \cup Chk("C26.centre", NearPos(e.ctr, EquCentre(m, e.i), mid, 5))
     \cup Chk("C26.vertices", Len(e.verts) = 4 /\ \A i \in 1..4 : Found(C[i]))
DscBad(e) ==
  LET m == maps[e.k] IN
  Chk("C26.id", e.id = e.i) \cup Chk("C26.centre", NearPos(e.ctr, m.ras[e.i + 1], m.decs[e.i + 1], 4))
(* the same to thousandths of a nano-turn: fine angles are <<nano-turns, thousandths>> *)
FineNear(a, b, tol) == /\ a[1] # BAD /\ Abs(a[1] - b[1]) < 1000 /\ Abs((a[1] - b[1]) * 1000 + (a[2] - b[2])) <= tol
FineLon(a, b, tol) == \/ FineNear(a, b, tol) \/ FineNear(a, <<b[1] - TURN, b[2]>>, tol) \/ FineNear(a, <<b[1] + TURN, b[2]>>, tol)
FinePos(p, lon, lat, tol) == FineNear(p[2], lat, tol) /\ (Abs(Abs(lat[1]) - QUARTER) < 300000 \/ FineLon(p[1], lon, tol))
(* i/n of a turn *)
FineTurn(i, n) == FineMulDiv(TURN, i, n)
EqtfBad(e) ==
  LET m == maps[e.k]
      r0 == FineTurn(e.i, m.num)
      r1 == FineTurn(e.i + 1, m.num)
      C == <<<<r0, e.dec0>>, <<r1, e.dec0>>, <<r1, e.dec1>>, <<r0, e.dec1>>>>
  IN Chk("C26.exact", /\ FinePos(e.ctr, FineTurn(2 * e.i + 1, 2 * m.num), e.mid, 20)
                      /\ Len(e.verts) = 4 /\ \A c \in 1..4 : \E v \in 1..4 : FinePos(e.verts[v], C[c][1], C[c][2], 20))
DscfBad(e) == Chk("C26.exact", FinePos(e.ctr, e.ra, e.dec, 20))
DodBad(e) ==
  LET m == maps[e.k] IN
  Chk("C26.id", e.id = e.i)
  \cup Chk("C26.centre", VNear(e.ctr, m.faces[e.i + 1]))
  \cup Chk("C26.vertices", Len(e.verts) = 5 /\ \A a \in 1..5 : \E b \in 1..5 : VNear(e.verts[b], m.verts[e.i + 1][a]))
Mirror(q) == <<q[1], -q[2]>>                    \* the sign of declination is reversed
HptJudge(e, ctr, cs) ==
  Chk("C26.id", e.id = e.i)
  \cup Chk("C26.centre", AtPoint(Mirror(e.ctr), ctr, 60))
  \cup Chk("C26.vertices", Len(e.verts) = 4 /\ \A a \in 1..4 : \E b \in 1..4 : AtPoint(Mirror(e.verts[b]), cs[a], 60))
(* the pixel: by its number for few pixels; for many, the pixel at the recorded centre must have the number *)
HptPixel(m, e) ==
  IF m.nest THEN {PixelOfNest(m.ns, e.i)}
  ELSE IF m.ns <= 8 THEN {PixelOf(m.ns, m.nest, e.i)}
  ELSE {q \in (LET c == Mirror(e.ctr) IN PixelsAt(m.ns, Mod1(c[1]), c[2], 150)) : Index(m.ns, m.nest, q) = e.i}
HptBad(e) == UNION {IF HptPixel(m, e) = {} THEN {"C26.centre"} ELSE LET q == CHOOSE q \in HptPixel(m, e) : TRUE IN HptJudge(e, Centre(m.ns, q), Corners(m.ns, q)) : m \in {maps[e.k]}}

------------------------------------------------------ (* summaries (C28) *)
MilliDeg(t) == IF t < 0 THEN -MulDiv(-t, 9, 25000) ELSE MulDiv(t, 9, 25000)
(* e.first: number of the first line; e.lines[i] = <<id, <<ra, dec>> x 4 in milli-degrees, nx, ny>> *)
LogBad(e) ==
  LET LineOK(a, t) ==
        /\ a[1] = t[1] /\ a[3] = t[3] /\ a[4] = t[4] /\ Len(a[2]) = 4
        /\ \A c \in 1..4 : /\ Near(a[2][c][2], MilliDeg(t[2][c][2]), 1)
                           /\ LET d == Abs(a[2][c][1] - MilliDeg(t[2][c][1])) IN
                              d <= 1 \/ d >= 359999 \/ AtPole(t[2][c][2])
  IN Chk("C28.raises", Ok(e))
     \cup Chk("C28.first", e.first = Len(e.tracts))
     \cup Chk("C28.lines", Len(e.lines) = Len(e.tracts) /\ \A i \in 1..Len(e.lines) : e.tracts[i][1] = i - 1
                            /\ e.lines[i] # <<>> /\ LineOK(e.lines[i], e.tracts[i]))
(* integers shown in a string form, against those expected *)
StrBad(e) == Chk("C28.form", e.name /\ e.shown = e.want)

----------------------------------------------------------------- (* spec *)
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
J(op, bad(_)) == IsEvent(op) /\ Report(l, bad(Trace[l])) /\ UNCHANGED maps
Bind(op, bad(_), of(_)) == IsEvent(op) /\ Report(l, bad(Trace[l])) /\ maps' = (Trace[l].k :> of(Trace[l])) @@ maps
CrashBad(e) == {"ANY.crash"}
Init == l = 1 /\ maps = <<>>
Next == \/ Bind("rmap", RMapBad, RMapOf) \/ Bind("emap", EMapBad, EMapOf) \/ Bind("dmap", DMapBad, DMapOf)
        \/ Bind("hmap", HMapBad, HMapOf) \/ Bind("dodec", DodecBad, DodecOf)
        \/ J("ridx", RIdxBad) \/ J("rtract", RTractBad) \/ J("rfind", RFindBad) \/ J("arr", ArrBad) \/ J("fat", FatBad)
        \/ J("find", FindBad) \/ J("self", SelfBad) \/ J("tpl", TplBad) \/ J("ctpl", CtplBad) \/ J("face", FaceBad)
        \/ J("cover", CoverBad) \/ J("eqt", EqtBad) \/ J("dsc", DscBad) \/ J("eqtf", EqtfBad) \/ J("dscf", DscfBad) \/ J("long", LongBad) \/ J("dod", DodBad) \/ J("hpt", HptBad)
        \/ J("log", LogBad) \/ J("str", StrBad) \/ J("crash", CrashBad)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
