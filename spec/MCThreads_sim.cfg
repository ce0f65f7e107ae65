CONSTANTS NT = 3 N = 3 NOps = 2 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Answers Left Export
CHECK_DEADLOCK FALSE
