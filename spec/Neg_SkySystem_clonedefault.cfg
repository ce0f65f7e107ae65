SPECIFICATION Spec
CONSTANTS NConf = 2 N = 2 MaxMaps = 3 MaxLive = 2 MaxIters = 1 Depth = 5 Ops = {"new", "get", "query", "find", "mutate", "search", "iter", "step", "clone", "setcfg", "drop"} Mutant = "clonedefault"
INVARIANTS Answers Objects Errors Iterations Config
VIEW View
CHECK_DEADLOCK FALSE
