CONSTANTS NT = 2 N = 2 NOps = 2 Mutant = "storefirst"
SPECIFICATION Spec
INVARIANTS Answers Left
CHECK_DEADLOCK FALSE
VIEW View
