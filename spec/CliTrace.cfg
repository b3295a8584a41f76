SPECIFICATION Spec
INVARIANTS Truthful Preserve
CHECK_DEADLOCK FALSE
