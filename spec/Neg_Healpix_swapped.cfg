SPECIFICATION Spec
CONSTANTS Sizes = {2} Steps = 37 Mutant = "noshift"
INVARIANTS Numbered
CHECK_DEADLOCK FALSE
