SPECIFICATION Spec
CONSTANTS Vals = {0, 1} MaxList = 2 Mutant = "none"
INVARIANT Separates
CHECK_DEADLOCK FALSE
