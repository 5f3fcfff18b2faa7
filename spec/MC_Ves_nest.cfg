SPECIFICATION Spec
CONSTANTS MaxParts = 5
  Rads = {2, 4}
  Levels = {0, 3, 6}
  Types = {"mantel", "klopper"}
INVARIANT Done
CHECK_DEADLOCK FALSE
