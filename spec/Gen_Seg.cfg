SPECIFICATION Spec
CONSTANTS N = 2
  Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
