CONSTANT Mutant = "none"
SPECIFICATION Spec
INVARIANTS Injective Apart Digests
CHECK_DEADLOCK FALSE
