SPECIFICATION Spec
CONSTANTS NConf = 3 N = 2 MaxMaps = 12 MaxLive = 2 MaxIters = 1 Depth = 26 Ops = {"new", "query", "find", "drop", "clone"} Mutant = "none"
INVARIANTS Answers Objects Errors Iterations Config Export
CHECK_DEADLOCK FALSE
