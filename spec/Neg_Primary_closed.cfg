CONSTANTS NT = 3 TL = 5 Ov = 2 W = 3 Bd = 1 MaxLen = 2 MaxTries = 2 Mutant = "closed"
SPECIFICATION Spec
INVARIANTS AtMostOnce Kept Holds
CHECK_DEADLOCK FALSE
