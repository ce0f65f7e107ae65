CONSTANTS NP = 2 NMaps = 2 NNames = 2 MaxFail = 1 MaxLook = 2 Mutant = "nolock"
SPECIFICATION Spec
INVARIANTS Serialises Whole Nothing0 Final Lively
VIEW VarView
CHECK_DEADLOCK FALSE
