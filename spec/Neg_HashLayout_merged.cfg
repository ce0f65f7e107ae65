CONSTANT Mutant = "merged"
SPECIFICATION Spec
INVARIANTS Injective Apart Digests
CHECK_DEADLOCK FALSE
