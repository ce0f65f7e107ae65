SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxP = 3 MaxB = 3 MaxIdx = 3 Mutant = "none"
INVARIANTS RoundTrip Injective Formula Fits Minimal Export
CHECK_DEADLOCK FALSE
