CONSTANT Mutant = "forgetful"
SPECIFICATION Spec
INVARIANTS Injective Apart Digests
CHECK_DEADLOCK FALSE
