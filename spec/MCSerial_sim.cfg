CONSTANTS NP = 2 NMaps = 2 NNames = 2 MaxFail = 1 MaxLook = 2 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Serialises Whole Nothing0 Final Lively Export
CHECK_DEADLOCK FALSE
