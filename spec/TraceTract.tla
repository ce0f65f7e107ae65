---------------------------- MODULE TraceTract ----------------------------
(* Trace specification of tracts, patches and cells (C01-C05, C15, C16,   *)
(* C18, C19).  The state binds every tract seen so far to its patch grid, *)
(* as PatchGrid defines it from the configuration; all later events on    *)
(* the tract are judged against this grid.                                *)
EXTENDS PatchGrid, TraceBase
VARIABLES l, slots, known
vars == <<l, slots, known>>

GridOf(e) == [kind |-> e.c.kind, dx |-> e.c.dx, dy |-> e.c.dy, pb |-> e.c.pb, cw |-> e.c.cw, ch |-> e.c.ch,
              cb |-> e.c.cb, nci |-> e.c.nci, ncb |-> e.c.ncb, nx |-> e.n[1], ny |-> e.n[2]]

(* e.forms: the properties that do not agree with their methods *)
FormBad(e, names, clause) == Chk(clause, \A i \in 1..Len(e.forms) : e.forms[i] \notin names)

----------------------------------------------------------------- (* tract *)
TractBad(e) ==
  LET g == GridOf(e) IN
  Chk("C01.count", e.n[1] >= 1 /\ e.n[2] >= 1)
  \cup Chk("C01.dims", e.inner = InnerDims(g))
  \cup Chk("C01.tractbox", e.box = TractBox(g))
  \cup Chk("C02.border", e.border = Border(g))
  \cup Chk("C04.len", e.len = NumPatches(g))
  \cup FormBad(e, {"bbox", "num_patches", "patch_inner_dimensions"}, "C01.form")
  \cup FormBad(e, {"patch_border"}, "C02.form")
  \cup FormBad(e, {"wcs", "ctr_coord", "tract_overlap"}, "C18.form")
  \cup FormBad(e, {"vertex_list"}, "C19.form")
  \cup Chk("C04.tractForms", e.forms = <<>>)

----------------------------------------------------------------- (* patch *)
(* how an argument addresses a patch: a pair or a sequential index *)
PatchArg(g, a) == IF Len(a) = 2 THEN a ELSE PatchPair(g, a[1])
PatchArgOK(g, a) == IF Len(a) = 2 THEN IsPatch(g, a[1], a[2]) ELSE IsPatchSeq(g, a[1])
PatchBad(e) ==
  LET g == slots[e.k] IN
  IF ~PatchArgOK(g, e.a) THEN Chk("C04.patchRange", Raised(e, "IndexError"))
  ELSE IF ~Ok(e) THEN {"C04.patchAccess"}
  ELSE LET p == PatchArg(g, e.a) IN
     Chk("C04.patchIndex", e.idx = p)
     \cup Chk("C04.patchSeq", e.seq = PatchSeq(g, p[1], p[2]))
     \cup Chk("C04.patchSeqOf", e.seqof = PatchSeq(g, p[1], p[2]))
     \cup Chk("C01.inner", e.inner = InnerBox(g, p[1], p[2]))
     \cup Chk("C02.outer", e.outer = OuterBox(g, p[1], p[2]))
     \cup Chk("C03.numCells", e.ncells = <<NumCells1(g), NumCells1(g)>>)
     \cup Chk("C03.len", e.len = NumCells1(g) * NumCells1(g))
     \cup Chk("C03.cellDims", e.cdims = <<g.cw, g.ch>> /\ e.cb = g.cb)
     \cup FormBad(e, {"inner_bbox"}, "C01.form")
     \cup FormBad(e, {"outer_bbox"}, "C02.form")
     \cup FormBad(e, {"num_cells", "cell_border", "cell_inner_dimensions"}, "C03.form")
     \cup FormBad(e, {"wcs"}, "C19.form")
     \cup Chk("C04.patchForms", e.forms = <<>>)

------------------------------------------------------------------ (* cell *)
CellArg(g, a) == IF Len(a) = 2 THEN a ELSE CellPair(g, a[1])
CellArgOK(g, a) == NumCells1(g) > 0 /\ (IF Len(a) = 2 THEN IsCell(g, a[1], a[2]) ELSE IsCellSeq(g, a[1]))
CellBad(e) ==
  LET g == slots[e.k] IN
  IF NumCells1(g) = 0 THEN Chk("C03.noCells", Raised(e, "IndexError"))
  ELSE IF ~CellArgOK(g, e.a) THEN Chk("C04.cellRange", Raised(e, "IndexError"))
  ELSE IF ~Ok(e) THEN {"C04.cellAccess"}
  ELSE LET c == CellArg(g, e.a) IN
     Chk("C04.cellIndex", e.idx = c)
     \cup Chk("C04.cellSeq", e.seq = CellSeq(g, c[1], c[2]) /\ e.seqof = e.seq)
     \cup Chk("C03.cellInner", e.inner = CellInner(g, e.p[1], e.p[2], c[1], c[2]))
     \cup Chk("C03.cellOuter", e.outer = CellOuter(g, e.p[1], e.p[2], c[1], c[2]))
     \cup FormBad(e, {"inner_bbox", "outer_bbox"}, "C03.form")
     \cup FormBad(e, {"wcs"}, "C19.form")
     \cup Chk("C04.cellForms", e.forms = <<>>)

----------------------------------------------------------- (* conversions *)
ConvBad(e) ==
  LET g == slots[e.k] IN
  CASE e.fn = "p2s" -> (IF IsPatch(g, e.a[1], e.a[2])
                        THEN Chk("C04.pairToSeq", Ok(e) /\ e.res = <<PatchSeq(g, e.a[1], e.a[2])>>) ELSE {})
    [] e.fn = "s2p" -> (IF IsPatchSeq(g, e.a[1])
                        THEN Chk("C04.seqToPair", Ok(e) /\ e.res = PatchPair(g, e.a[1])) ELSE {})
    [] e.fn = "notpair" -> Chk("C04.notPair", Raised(e, "ValueError"))
    [] e.fn = "cp2s" -> (IF CellArgOK(g, e.a)
                         THEN Chk("C04.cellPairToSeq", Ok(e) /\ e.res = <<CellSeq(g, e.a[1], e.a[2])>>)
                         ELSE Chk("C04.cellConvRange", Raised(e, "IndexError")))
    [] e.fn = "cs2p" -> (IF CellArgOK(g, e.a)
                         THEN Chk("C04.cellSeqToPair", Ok(e) /\ e.res = CellPair(g, e.a[1]))
                         ELSE Chk("C04.cellConvRange", Raised(e, "IndexError")))
    [] e.fn = "differ" -> {"C04.sameObject"}                \* two forms of access, different objects
    [] e.fn = "count" -> {"C18.count"}                       \* not the number of patches needed
    [] OTHER -> {"ANY.unknownConv"}

(* iteration: the first Len(e.pairs) of the whole order; all of it if e.all *)
IterBad(e) ==
  LET g == slots[e.k]
      n == IF e.cells THEN NumCells1(g) * NumCells1(g) ELSE NumPatches(g)
      Pair(s) == IF e.cells THEN CellPair(g, s) ELSE PatchPair(g, s)
  IN Chk("C04.iterOrder", Len(e.pairs) <= n /\ \A i \in 1..Min2(n, Len(e.pairs)) : e.pairs[i] = Pair(i - 1) /\ e.seqs[i] = i - 1)
     \cup Chk("C04.iterAll", e.all => Len(e.pairs) = n)

--------------------------------------------------- (* C15: sky lookups *)
LocateBad(e) ==
  LET g == slots[e.k]
      cand == {<<x, y>> : x \in RoundSet(<<e.pix[1], e.pix[2]>>), y \in RoundSet(<<e.pix[3], e.pix[4]>>)}
      inside == {c \in cand : HasPixel(TractBox(g), c[1], c[2])}
  IN IF ~e.proj
     THEN Chk("C15.containsUnprojectable", e.con = "F") \cup Chk("C15.findPatchUnprojectable", Raised(e, "LookupError"))
     ELSE Chk("C15.contains", (e.con = "T" /\ inside # {}) \/ (e.con = "F" /\ inside # cand))
          \cup Chk("C15.findPatch",
                   \/ Ok(e) /\ e.idx \in {PatchOfPixel(g, c[1], c[2]) : c \in inside}
                   \/ Raised(e, "LookupError") /\ inside # cand)

------------------------------------------------ (* C16: patch searches *)
Idx(r) == {<<r[i][1], r[i][2]>> : i \in 1..Len(r)}
PlistBad(e) ==
  LET g == slots[e.k]
      xs == {<<e.pix[i][1], e.pix[i][2]>> : i \in 1..Len(e.pix)}
      ys == {<<e.pix[i][3], e.pix[i][4]>> : i \in 1..Len(e.pix)}
      \* smallest and largest pixel bounding box consistent with the micro-pixels
      qlo == BoxMM(RoundHi(PMin(xs)), RoundHi(PMin(ys)), RoundLo(PMax(xs)), RoundLo(PMax(ys)))
      qhi == BoxMM(RoundLo(PMin(xs)), RoundLo(PMin(ys)), RoundHi(PMax(xs)), RoundHi(PMax(ys)))
  IN IF ~Ok(e) THEN {"C16.raises"}
     ELSE IF Len(e.pix) = 0 THEN Chk("C16.emptyQuery", e.res = <<>>)
     ELSE Chk("C16.must", MustFindNear(g, qlo) \subseteq Idx(e.res))
          \cup Chk("C16.may", \A p \in Idx(e.res) : MayFindOne(g, qhi, p))
          \cup Chk("C16.once", Cardinality(Idx(e.res)) = Len(e.res))
          \cup Chk("C16.rectangle", IsRectangle(Idx(e.res)))
          \cup Chk("C16.box", \A i \in 1..Len(e.res) : LET r == e.res[i] IN
                     <<r[3], r[4]>> = <<InnerBox(g, r[1], r[2])[1], InnerBox(g, r[1], r[2])[2]>>)
          \cup Chk("C16.sized", e.sized)

-------------------------------------------- (* C18: placement of a tract *)
(* e.need / e.most: the area that must be in the tract, <<x0, y0, x1, y1>> as *)
(* <<floor, micro>> coordinates of the WCS with its origin at the centre; the *)
(* box of the tract may hold any area between the two                         *)
PlaceBad(e) ==
  LET g == slots[e.k]
      D == InnerDims(g)
      \* pixel range (first, last) of the needed area: smallest and largest
      nlo == <<RoundHi(e.need[1]), RoundHi(e.need[2]), RoundLo(e.need[3]), RoundLo(e.need[4])>>
      nhi == <<RoundLo(e.most[1]), RoundLo(e.most[2]), RoundHi(e.most[3]), RoundHi(e.most[4])>>
      first == <<-e.shift[1], -e.shift[2]>>                   \* first pixel of the tract, before the shift
      last == <<first[1] + g.nx * D[1] - 1, first[2] + g.ny * D[2] - 1>>
  IN Chk("C18.wcsSky", e.crval <= 3)                          \* reference position, nano-turns off
     \cup Chk("C18.wcsShape", e.wcsdev <= 200)                \* micro-pixels off the configured WCS
     \cup Chk("C18.wcsShift", e.shiftdev <= 200)              \* the shift is a whole number of pixels
     \cup Chk("C18.wcsInverse", e.invdev <= 1)                \* sky -> pixel -> sky, nano-turns
     \cup Chk("C18.centre", e.ctr <= 3)                       \* tract centre where it should be
     \cup Chk("C18.overlap", e.overlap)
     \cup Chk("C26.size", e.cls = "discrete" =>             \* the radius is entry i of the list
            /\ first[1] <= nlo[1] /\ first[2] <= nlo[2] /\ last[1] >= nlo[3] /\ last[2] >= nlo[4]
            /\ g.nx * D[1] - (nhi[3] - nhi[1] + 1) < D[1] /\ g.ny * D[2] - (nhi[4] - nhi[2] + 1) < D[2])
     \cup Chk("C18.holds", first[1] <= nlo[1] /\ first[2] <= nlo[2] /\ last[1] >= nlo[3] /\ last[2] >= nlo[4])
     \cup Chk("C18.notTooLarge", /\ g.nx * D[1] - (nhi[3] - nhi[1] + 1) < D[1]
                                 /\ g.ny * D[2] - (nhi[4] - nhi[2] + 1) < D[2])
     \cup Chk("C18.centred", \A a \in 1..2 :
            LET sum == first[a] + last[a]                     \* twice the centre
                \* twice the centre of the needed area, in the range allowed
                lo == nhi[a] + nlo[a + 2]
                hi == nlo[a] + nhi[a + 2]
            IN sum >= Min2(lo, hi) - 2 /\ sum <= Max2(lo, hi) + 2)

---------------------------------------------------- (* C19: sky regions *)
(* corners of a pixel box, in half pixels *)
Corners2(b) == {<<2 * x - 1, 2 * y - 1>> : x \in {b[1], b[1] + b[3]}, y \in {b[2], b[2] + b[4]}}
PolyBox(g, e) ==
  CASE e.what = "tract" -> TractBox(g)
    [] e.what = "inner" -> InnerBox(g, e.p[1], e.p[2])
    [] e.what = "outer" -> OuterBox(g, e.p[1], e.p[2])
    [] e.what = "cinner" -> CellInner(g, e.p[1], e.p[2], e.c[1], e.c[2])
    [] e.what = "couter" -> CellOuter(g, e.p[1], e.p[2], e.c[1], e.c[2])
PolyBad(e) ==
  LET g == slots[e.k] IN
  IF ~Ok(e) THEN {"C19.raises"}
  ELSE Chk("C19.corners", {<<e.pts[i][1], e.pts[i][2]>> : i \in 1..Len(e.pts)} = Corners2(PolyBox(g, e)) /\ Len(e.pts) = 4)
       \cup Chk("C19.exact", \A i \in 1..Len(e.pts) : e.pts[i][3] <= 100)
       \cup Chk("C19.forms", e.forms)
VertsBad(e) ==
  LET g == slots[e.k] IN
  (IF e.explicit THEN
     Chk("C19.vertexCorners", {<<e.pts[i][1], e.pts[i][2]>> : i \in 1..Len(e.pts)} = Corners2(TractBox(g)) /\ Len(e.pts) = 4)
     \* 0.001 pixel inside: 1000 micro-pixels from the corner in x and in y, inwards
     \cup Chk("C19.vertexInside", \A i \in 1..Len(e.pts) :
            /\ Abs(e.pts[i][3] - (IF e.pts[i][1] < 0 THEN 1000 ELSE -1000)) <= 20
            /\ Abs(e.pts[i][4] - (IF e.pts[i][2] < 0 THEN 1000 ELSE -1000)) <= 20)
   ELSE {})
  \cup Chk("C19.hull", e.hullErr = <<>> /\ e.hullSame /\ e.hullDev <= 10)
  \cup Chk("C19.region", e.regErr = <<>> /\ e.regOK)

------------------------------------------ (* C05: answers do not change *)
AnsBad(e) == IF e.key \in DOMAIN known THEN Chk("C05.answer", known[e.key] = e.val) ELSE {}

----------------------------------------------------------------- (* spec *)
Init == l = 1 /\ slots = <<>> /\ known = <<>>
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Judge(bad) == Report(l, bad)
BindTract == /\ IsEvent("tract") /\ Judge(TractBad(Trace[l]))
             /\ slots' = (Trace[l].k :> GridOf(Trace[l])) @@ slots /\ UNCHANGED known
Patch == IsEvent("patch") /\ Judge(PatchBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Cell == IsEvent("cell") /\ Judge(CellBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Conv == IsEvent("conv") /\ Judge(ConvBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Iter == IsEvent("iter") /\ Judge(IterBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Locate == IsEvent("locate") /\ Judge(LocateBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Plist == IsEvent("plist") /\ Judge(PlistBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Place == IsEvent("place") /\ Judge(PlaceBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Poly == IsEvent("poly") /\ Judge(PolyBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Verts == IsEvent("verts") /\ Judge(VertsBad(Trace[l])) /\ UNCHANGED <<slots, known>>
Answer == /\ IsEvent("answer") /\ Judge(AnsBad(Trace[l]))
          /\ known' = (IF Trace[l].key \in DOMAIN known THEN known ELSE (Trace[l].key :> Trace[l].val) @@ known)
          /\ UNCHANGED slots
Crash == IsEvent("crash") /\ Judge({"ANY.crash"}) /\ UNCHANGED <<slots, known>>
Next == BindTract \/ Patch \/ Cell \/ Conv \/ Iter \/ Locate \/ Plist \/ Place \/ Poly \/ Verts \/ Answer \/ Crash
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
