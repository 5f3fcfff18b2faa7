SPECIFICATION Spec
CONSTANTS N0 = 4
  Depth = 4
  Kinds = {"move","mirror","rot","rotxy","setpt"}
  Shuffle = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
