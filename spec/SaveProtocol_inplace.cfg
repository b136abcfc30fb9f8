CONSTANT Protocol = "inplace"
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
