SPECIFICATION MSpec
VIEW View
INVARIANTS HeldBound WaitBound OutputRight
CHECK_DEADLOCK FALSE
