SPECIFICATION Spec
CONSTANTS N0 = 4
  Depth = 4
  Kinds = {"move","mirror","rot","reverse","order","close"}
  Shuffle = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
