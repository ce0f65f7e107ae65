SPECIFICATION Spec
CONSTANTS NMaps = 3 NNames = 3 MaxOps = 6 Mutant = "none"
INVARIANTS AllOrNothing Hidden Conflicts Export
CHECK_DEADLOCK FALSE
