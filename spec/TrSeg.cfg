SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- SegStart
  Step <- SegStep
  Fails <- SegFails
  Sync <- SegSync
