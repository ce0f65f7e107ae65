CONSTANTS N = 3 MaxMaps = 2 MaxIters = 1 Depth = 0 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Right Refines
VIEW AnyView
CHECK_DEADLOCK FALSE
