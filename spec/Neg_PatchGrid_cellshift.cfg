CONSTANTS MaxN = 3 MaxD = 2 MaxB = 2 MaxC = 2 MaxNci = 2 MaxNcb = 2 MaxSpan = 5 Mutant = "cellshift"
SPECIFICATION Spec
INVARIANTS Tiles OuterOK CellsOK Bijection OrderOK SearchOK GrowOK
CONSTRAINT Export
CHECK_DEADLOCK FALSE
