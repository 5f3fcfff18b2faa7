SPECIFICATION Spec
CONSTANTS N0 = 3
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
