SPECIFICATION Spec
CONSTANTS N0 = 2
INVARIANTS Sym Imply OnePiece Cases Hull
CHECK_DEADLOCK FALSE
