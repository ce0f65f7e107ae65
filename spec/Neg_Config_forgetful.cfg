SPECIFICATION Spec
CONSTANTS Vals = {0, 1} MaxList = 2 Mutant = "forgetful"
INVARIANT Separates
CHECK_DEADLOCK FALSE
