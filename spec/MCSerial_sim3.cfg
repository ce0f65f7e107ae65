CONSTANTS NP = 3 NMaps = 3 NNames = 2 MaxFail = 1 MaxLook = 2 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Serialises Whole Nothing0 Final Lively Export
CHECK_DEADLOCK FALSE
