SPECIFICATION Spec
CONSTANTS MaxParts = 6
  Rads = {2, 4}
  Levels = {0, 3, 6, 9}
  Types = {"mantel", "flach"}
INVARIANT Done
CHECK_DEADLOCK FALSE
