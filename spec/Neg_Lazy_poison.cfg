CONSTANTS N = 3 MaxMaps = 2 MaxIters = 1 Depth = 5 Mutant = "poison"
SPECIFICATION Spec
INVARIANTS Right Refines
VIEW View
CHECK_DEADLOCK FALSE
