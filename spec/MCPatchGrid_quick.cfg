CONSTANTS MaxN = 3 MaxD = 2 MaxB = 2 MaxC = 2 MaxNci = 2 MaxNcb = 2 MaxSpan = 5 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Tiles OuterOK AxisOK CellsOK Bijection OrderOK SearchOK GrowOK
CONSTRAINT Export
CHECK_DEADLOCK FALSE
