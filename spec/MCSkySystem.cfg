SPECIFICATION Spec
CONSTANTS NConf = 2 N = 2 MaxMaps = 4 MaxLive = 3 MaxIters = 2 Depth = 6 Ops = {"new", "get", "query", "find", "mutate", "search", "iter", "step", "clone", "setcfg", "drop"} Mutant = "none"
INVARIANTS Answers Objects Errors Iterations Config
VIEW View
CHECK_DEADLOCK FALSE
