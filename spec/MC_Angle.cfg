SPECIFICATION Spec
CONSTANTS
  LX = 5
  LY = 7
  Xs = {0}
  Dth = 6
  Kinds = {"ba"}
INVARIANTS NumAngles InRange AngleInv Mutual Triangle Opposite
CHECK_DEADLOCK FALSE
