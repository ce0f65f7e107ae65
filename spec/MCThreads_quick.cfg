CONSTANTS NT = 2 N = 2 NOps = 1 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Answers Left Export
CHECK_DEADLOCK FALSE
