CONSTANTS Max = 9 Mutant = "mixed"
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
