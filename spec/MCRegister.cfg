SPECIFICATION Spec
CONSTANTS NMaps = 3 NNames = 2 MaxOps = 4 Mutant = "none"
INVARIANTS AllOrNothing Hidden Conflicts 
CHECK_DEADLOCK FALSE
