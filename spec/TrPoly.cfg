SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- PolyStart
  Step <- PolyStep
  Fails <- PolyFails
  Sync <- PolySync
