SPECIFICATION Spec
CONSTANTS NMaps = 2 NNames = 2 MaxOps = 3 Mutant = "none"
INVARIANTS AllOrNothing Hidden Conflicts Export
CHECK_DEADLOCK FALSE
