SPECIFICATION Spec
CONSTANTS N0 = 2
  K = 6
INVARIANTS Pick Orient SidesRev Convex Rigid FourQuarters TwiceMirrored RotXY MergeKeeps Order OpenNotOrdered IsValid Cores Corner Tiling Fans CloseOnce
CHECK_DEADLOCK FALSE
