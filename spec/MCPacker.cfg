SPECIFICATION Spec
CONSTANTS MaxT = 5 MaxP = 5 MaxB = 5 MaxIdx = 5 Mutant = "none"
INVARIANTS RoundTrip Injective Formula Fits Minimal Export
CHECK_DEADLOCK FALSE
