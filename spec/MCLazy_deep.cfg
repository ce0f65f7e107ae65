CONSTANTS N = 3 MaxMaps = 2 MaxIters = 1 Depth = 7 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Right Refines
VIEW View
CHECK_DEADLOCK FALSE
