SPECIFICATION Spec
CONSTANTS NMaps = 3 NNames = 3 MaxOps = 0 Mutant = "none"
INVARIANTS AllOrNothing Hidden Conflicts 
CHECK_DEADLOCK FALSE
