SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 Levels = {0, 1, 2, 3, 4, 5, 6, 7}
 Sinks = {0, 1, 2, 3}
 MaxOps = 1000000
