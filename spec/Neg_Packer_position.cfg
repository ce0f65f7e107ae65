SPECIFICATION Spec
CONSTANTS MaxT = 2 MaxP = 2 MaxB = 3 MaxIdx = 3 Mutant = "position"
INVARIANTS RoundTrip Injective Formula Fits Minimal 
CHECK_DEADLOCK FALSE
