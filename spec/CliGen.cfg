SPECIFICATION Fair
INVARIANTS Truthful Preserve Decided
PROPERTY Ends
CHECK_DEADLOCK FALSE
