----------------------------- MODULE MCPrimary -----------------------------
(* A sky of one dimension, cut into tracts with overlap, tracts into        *)
(* patches with borders; workers, that may die and be started again, make a *)
(* catalogue of the objects of a region from the patches a search gives.    *)
(* Positions are in half pixels; the pixels of different tracts are shifted.*)
EXTENDS Primary, TLC
CONSTANTS NT,        \* tracts around the sky
          TL,        \* length of the inner region of a tract, in half pixels
          Ov,        \* overlap on either side
          W, Bd,     \* patch size and border, in pixels
          MaxLen,    \* longest region
          MaxTries,  \* attempts at a patch
          Mutant
VARIABLES q,         \* the region <<from, length>>
          objs,      \* positions of objects
          cat,       \* entries <<object, tract, patch, primary>>
          tries      \* <<tract, patch>> -> attempts
vars == <<q, objs, cat, tries>>
Sky == NT * TL
Mod(a) == a % Sky
(* a tract starts Ov before its inner region; odd tracts have their pixels shifted by half *)
Origin(t) == Mod(t * TL - Ov + Sky - (t % 2))
Pix(t, p) == LET d == Mod(p - Origin(t) + Sky) IN d \div 2
Need == TL + 2 * Ov + 2                                  \* half pixels to be held
NP == (Need + 2 * W - 1) \div (2 * W)
G == [nx |-> NP, ny |-> 1, dx |-> W, dy |-> 1, kind |-> "legacy", pb |-> Bd, cw |-> 0, ch |-> 0, cb |-> 0, nci |-> 0, ncb |-> 0]
X(t, p) == {<<Pix(t, p), 0>>}
Has(t, p) == TRUE \in InTract(G, X(t, p))
Owner(p) == p \div TL
Mine(t, p) == IF Mutant = "anytract" THEN Has(t, p) ELSE Owner(p) = t
Inner(t, k, p) == IF Mutant = "closed" THEN \E d \in {0, 1} : HasPixel(InnerBox(G, k, 0), Pix(t, p) - d, 0)
                  ELSE TRUE \in InInner(G, k, X(t, p))
(* the search: tracts that hold an end of the region, and patches that touch what is between them *)
Ends == {Mod(q[1] + d) : d \in {0, q[2]}}
Inside == {p \in objs : Mod(p - q[1] + Sky) <= q[2]}
Tracts == IF Mutant = "owners" THEN {Owner(p) : p \in {q[1]}} ELSE {t \in 0..(NT - 1) : \E p \in Ends : Has(t, p)}
Patches(t) == LET xs == {Min2(Pix(t, p), NP * W) : p \in Ends}
                  lo == CHOOSE a \in xs : \A b \in xs : a <= b
                  hi == CHOOSE a \in xs : \A b \in xs : a >= b
              IN {k \in 0..(NP - 1) : Overlaps(BoxMM(lo, 0, hi, 0), IF Mutant = "thin" THEN (LET b == InnerBox(G, k, 0) IN <<b[1] + 1, 0, b[3] - 1, 1>>) ELSE OuterBox(G, k, 0))}
Todo == UNION {{<<t, k>> : k \in Patches(t)} : t \in Tracts}

Init == /\ q \in (0..(Sky - 1)) \X (0..MaxLen) /\ cat = {} /\ tries = [x \in {} |-> 0]
        /\ \E a \in 0..(Sky - 1) : \E d \in {0, 1} : objs = {a, Mod(a + d)}
Entries(t, k) == {<<p, t, k, Mine(t, p) /\ Inner(t, k, p)>> : p \in {o \in objs : TRUE \in InOuter(G, k, X(t, o))}}
Tried(w) == IF w \in DOMAIN tries THEN tries[w] ELSE 0
Finish(w) == /\ Tried(w) < MaxTries /\ cat' = cat \cup Entries(w[1], w[2]) /\ tries' = (w :> MaxTries) @@ tries
             /\ UNCHANGED <<q, objs>>
(* it dies; what it had so far may be there already *)
Die(w) == /\ Tried(w) < MaxTries - 1 /\ tries' = (w :> Tried(w) + 1) @@ tries
          /\ \E part \in {{}, {e \in Entries(w[1], w[2]) : e[4]}} : cat' = cat \cup part
          /\ UNCHANGED <<q, objs>>
Next == \E w \in Todo : Finish(w) \/ Die(w)
Spec == Init /\ [][Next]_vars
Done == \A w \in Todo : Tried(w) = MaxTries
Prims == [p \in objs |-> {<<c[2], c[3]>> : c \in {d \in cat : d[1] = p /\ d[4]}}]
AtMostOnce == Never2(Prims)
Kept == Done => Once(Prims, Inside)
(* regions no longer than the overlap: a tract that owns a position inside holds an end *)
Holds == \A p \in Inside : Has(Owner(p), p) /\ Owner(p) \in {t \in 0..(NT - 1) : \E e \in Ends : Has(t, e)}
=============================================================================
