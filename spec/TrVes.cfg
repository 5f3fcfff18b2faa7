SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- VesStart
  Step <- VesStep
  Fails <- VesFails
  Sync <- VesSync
