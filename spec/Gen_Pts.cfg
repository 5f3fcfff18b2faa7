SPECIFICATION Spec
CONSTANTS N0 = 20
  Thr = 10
  Depth = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
