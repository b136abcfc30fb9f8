CONSTANT Protocol = "aside"
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
