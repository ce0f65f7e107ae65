SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 4, 8} Steps = 97 Mutant = "none"
INVARIANTS Numbered Shared Located Fine
CHECK_DEADLOCK FALSE
