CONSTANTS MaxN = 3 MaxD = 2 MaxB = 2 Mutant = "none"
SPECIFICATION Spec
INVARIANTS WithinTract AcrossTracts SameEdge CellsToo
CONSTRAINT Export
CHECK_DEADLOCK FALSE
