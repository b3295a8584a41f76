SPECIFICATION Spec
VIEW View
INVARIANTS OutputRight Bounds BlockedRight Finishes
CHECK_DEADLOCK FALSE
