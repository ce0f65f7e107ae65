CONSTANTS N = 3 MaxMaps = 3 MaxIters = 2 Depth = 24 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Right Refines Export
CHECK_DEADLOCK FALSE
