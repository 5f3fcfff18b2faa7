SPECIFICATION Spec
CONSTANTS N = 2
  Depth = 1
  ShareAll = TRUE
INVARIANTS Symmetric Exact Trichotomy SegInKind TouchMeets SharedStay
PROPERTY Lengths
CHECK_DEADLOCK FALSE
