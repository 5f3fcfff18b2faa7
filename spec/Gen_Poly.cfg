SPECIFICATION Spec
CONSTANTS N0 = 4
  Depth = 7
  Kinds = {"move","mirror","rot","rotxy","reverse","setpt","append","prepend","close","purge"}
  Shuffle = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
