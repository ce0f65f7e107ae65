SPECIFICATION Spec
CONSTANTS NConf = 1 N = 3 MaxMaps = 1 MaxLive = 1 MaxIters = 2 Depth = 10 Ops = {"new", "iter", "step"} Mutant = "none"
INVARIANTS Answers Objects Errors Iterations Config Export
CHECK_DEADLOCK FALSE
