SPECIFICATION Spec
CONSTANTS MaxParts = 4
  Rads = {2, 4}
  Levels = {0, 3, 7}
  Types = {"mantel", "klopper", "flach", "raumende"}
INVARIANT Done
CHECK_DEADLOCK FALSE
