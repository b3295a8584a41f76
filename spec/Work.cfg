CONSTANTS
  M = 4
  Bs = {1, 3, 4, 12}
  N = 30
  W = 5
  Keen = FALSE
INIT Init
NEXT Next
INVARIANTS InScoop FewMoves
CHECK_DEADLOCK FALSE
