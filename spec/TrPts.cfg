SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- PtsStart
  Step <- PtsStep
  Fails <- PtsFails
  Sync <- PtsSync
