CONSTANTS Max = 9 Mutant = "none"
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
