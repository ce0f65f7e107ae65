------------------------------- MODULE Config -------------------------------
(* Configurations of sky maps: the options of every class and tract         *)
(* builder, their documented defaults, which values are valid, and when two *)
(* maps are the same (C08, C27).  Values are written as strings.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Classes == {"dodeca", "equat", "discrete", "rings", "healpix"}
Builders == {"legacy", "cells"}
Common == {"tractOverlap", "pixelScale", "projection", "rotation"}
Own(cls) == CASE cls = "dodeca" -> {"withTractsOnPoles"}
              [] cls = "equat" -> {"numTracts", "decRange"}
              [] cls = "discrete" -> {"raList", "decList", "radiusList"}
              [] cls = "rings" -> {"numRings", "raStart"}
              [] cls = "healpix" -> {"log2NSide", "nest"}
OfBuilder(tb) == CASE tb = "legacy" -> {"legacy.patchInnerDimensions", "legacy.patchBorder"}
                   [] tb = "cells" -> {"cells.cellInnerDimensions", "cells.cellBorder", "cells.numCellsPerPatchInner",
                                       "cells.numCellsInPatchBorder"}
AllOptions(cls) == {"tractBuilder"} \cup Common \cup Own(cls) \cup OfBuilder("legacy") \cup OfBuilder("cells")
(* the options that determine the geometry of a map *)
Geometry(cls, tb) == {"tractBuilder"} \cup Common \cup Own(cls) \cup OfBuilder(tb)
SameGeometry(ca, a, cb, b) ==
  /\ ca = cb /\ a["tractBuilder"] = b["tractBuilder"]
  /\ \A o \in Geometry(ca, a["tractBuilder"]) : a[o] = b[o]

(* documented defaults; "None" where there is none *)
Default(cls, o) ==
  CASE o = "tractBuilder" -> "legacy"
    [] o = "tractOverlap" -> IF cls = "dodeca" THEN "3.5" ELSE "1.0"
    [] o = "pixelScale" -> IF cls = "dodeca" THEN "0.2" ELSE "0.333"
    [] o = "projection" -> IF cls = "equat" THEN "CEA" ELSE "STG"
    [] o = "rotation" -> IF cls = "healpix" THEN "45.0" ELSE "0.0"
    [] o = "withTractsOnPoles" -> "False"
    [] o = "numTracts" -> "4"
    [] o = "decRange" -> "[-1.25, 1.25]"
    [] o \in {"raList", "decList", "radiusList"} -> "[]"
    [] o = "numRings" -> "None"
    [] o = "raStart" -> "0.0"
    [] o = "log2NSide" -> "0"
    [] o = "nest" -> "False"
    [] o = "legacy.patchInnerDimensions" -> "[4000, 4000]"
    [] o = "legacy.patchBorder" -> IF cls = "dodeca" THEN "250" ELSE "100"
    [] o = "cells.cellInnerDimensions" -> "[150, 150]"
    [] o = "cells.cellBorder" -> "50"
    [] o = "cells.numCellsPerPatchInner" -> "20"
    [] o = "cells.numCellsInPatchBorder" -> "1"

(* kinds of change to an option that give a different value *)
IsList(o) == o \in {"decRange", "raList", "decList", "radiusList", "legacy.patchInnerDimensions", "cells.cellInnerDimensions"}
IsFloat(o) == o \in {"tractOverlap", "pixelScale", "rotation", "raStart"}
Changes(o) ==
  IF o \in {"tractBuilder", "withTractsOnPoles", "nest"} THEN {"flip"}
  ELSE IF o = "projection" THEN {"letter0", "letter1", "letter2"}
  ELSE IF o \in {"raList", "decList", "radiusList"} THEN {"first", "middle", "last", "swap", "ulp", "tiny"}
  ELSE IF o = "cells.cellInnerDimensions" THEN {"both", "bigboth"}
  ELSE IF o = "decRange" THEN {"first", "last", "swap", "ulp", "tiny"}
  ELSE IF IsList(o) THEN {"first", "last", "swap", "bigfirst", "biglast"}
  ELSE IF IsFloat(o) THEN {"up", "ulp", "tiny"} ELSE {"up", "big"}

(* Families of configurations in which options are exchanged, merged or     *)
(* split in every way: values of several options (integers; floats in       *)
(* hundredths), among which equal sums, products and permutations abound.   *)
Family(name) ==
  CASE name = "cells" -> [cell : {10, 20}, border : {0, 10, 20}, inner : {2, 4}, outer : {0, 1, 2}]
    [] name = "legacy" -> [dx : {10, 20, 30}, dy : {10, 20, 30}, border : {0, 10, 20}]
    [] name = "floats" -> [overlap : {100, 200, 400}, scale : {100, 200, 400}, rotation : {100, 200, 400}]
    [] name = "equat" -> [n : {3, 4}, lo : {-200, -100, 100}, hi : {100, 200, 300}, rotation : {0, 100}]
    [] name = "discrete" -> [ra1 : {100, 200}, ra2 : {100, 200}, dec1 : {100, 200}, dec2 : {100, 200}, r1 : {100, 200}, r2 : {100, 200},
                             n : {2}]
                            \cup [ra1 : {100, 200}, ra2 : {0}, dec1 : {100, 200}, dec2 : {0}, r1 : {100, 200}, r2 : {0}, n : {1}]
    [] name = "rings" -> [n : {2, 3, 4}, start : {0, 200, 300, 400}, rotation : {0, 200}]
    [] name = "healpix" -> [k : {0, 1, 2, 3}, nest : {0, 1}, rotation : {0, 100, 4500}]
Families(cls) == {"cells", "legacy", "floats"} \cup ({cls} \cap {"equat", "discrete", "rings", "healpix"})

(* validity of single values (integers; angles in micro-degrees) *)
ValidValue(f, v) ==
  CASE f = "numRings" -> v[1] >= 1
    [] f = "raStart" -> v[1] >= 0 /\ v[1] < 360000000
    [] f = "decRange" -> v[1] = 2                              \* length
    [] f = "patchInnerDimensions" -> v[1] = 2                  \* length
    [] f = "cellInnerDimensions" -> Len(v) = 2 /\ v[1] = v[2]
    [] f = "projection" -> v[1] = 3                            \* length of the name
    [] f = "lengths" -> v[1] = v[2] /\ v[2] = v[3]             \* raList, decList, radiusList
    [] f = "version" -> v[1] \in {0, 1}
=============================================================================
