CONSTANTS NT = 2 N = 2 NOps = 2 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Answers Left
CHECK_DEADLOCK FALSE
VIEW View
