SPECIFICATION Spec
CONSTANTS Depth = 8
  MaxE = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
