CONSTANTS MaxN = 3 MaxD = 3 MaxB = 3 MaxC = 2 MaxNci = 2 MaxNcb = 3 MaxSpan = 7 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Tiles OuterOK AxisOK CellsOK Bijection OrderOK SearchOK GrowOK
CONSTRAINT Export
CHECK_DEADLOCK FALSE
