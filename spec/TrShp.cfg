SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- ShpStart
  Step <- ShpStep
  Fails <- ShpFails
  Sync <- ShpSync
