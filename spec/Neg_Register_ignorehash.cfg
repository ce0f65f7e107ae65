SPECIFICATION Spec
CONSTANTS NMaps = 2 NNames = 2 MaxOps = 2 Mutant = "ignorehash"
INVARIANTS AllOrNothing Hidden Conflicts
CHECK_DEADLOCK FALSE
