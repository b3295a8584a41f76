SPECIFICATION Spec
CONSTANTS
 Bytes = {0, 1, 128, 255}
 MaxLen = 6
INVARIANT Agree
CHECK_DEADLOCK FALSE
