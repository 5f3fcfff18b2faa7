SPECIFICATION Spec
CONSTANTS N0 = 3
INVARIANTS Sym Imply OnePiece Cases Hull
CHECK_DEADLOCK FALSE
