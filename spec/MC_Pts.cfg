SPECIFICATION Spec
CONSTANTS N0 = 20
  Thr = 10
  Depth = 4
INVARIANTS Reflexive Symmetric Emptied Follow
CHECK_DEADLOCK FALSE
