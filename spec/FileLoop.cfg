SPECIFICATION Spec
CONSTANTS
 MaxIn = 4
 MaxBuf = 4
 Faults = TRUE
INVARIANTS Continuous Buffers Truthful
PROPERTY Finishes
CHECK_DEADLOCK FALSE
