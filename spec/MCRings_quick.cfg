CONSTANTS MaxRings = 9 Starts = {0, 123456789, 999999999} Grid = 12 Mutant = "none"
SPECIFICATION Spec
INVARIANTS Numbering Onto Partition Edges Width Symmetric
CONSTRAINT Export
CHECK_DEADLOCK FALSE
