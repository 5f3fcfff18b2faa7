SPECIFICATION Spec
CONSTANTS N0 = 2
  K = 4
INVARIANTS Pick Orient SidesRev Convex Rigid FourQuarters TwiceMirrored RotXY MergeKeeps Order OpenNotOrdered IsValid Cores Corner Tiling Fans CloseOnce
CHECK_DEADLOCK FALSE
