SPECIFICATION Spec
CONSTANTS Sizes = {2} Steps = 37 Mutant = "none"
INVARIANTS Numbered Shared Located Fine
CHECK_DEADLOCK FALSE
