SPECIFICATION Spec
CONSTANTS NConf = 3 N = 3 MaxMaps = 7 MaxLive = 4 MaxIters = 3 Depth = 24 Ops = {"new", "get", "query", "find", "mutate", "search", "iter", "step", "clone", "setcfg", "drop"} Mutant = "none"
INVARIANTS Answers Objects Errors Iterations Config Export
CHECK_DEADLOCK FALSE
