CONSTANTS NP = 3 NMaps = 2 NNames = 2 MaxFail = 1 MaxLook = 1 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Serialises Whole Nothing0 Final Lively
VIEW VarView
CHECK_DEADLOCK FALSE
