CONSTANTS MaxN = 2 MaxD = 2 MaxB = 1 Mutant = "onlyindex"
SPECIFICATION Spec
INVARIANTS WithinTract AcrossTracts SameEdge CellsToo
CONSTRAINT Export
CHECK_DEADLOCK FALSE
