SPECIFICATION Spec
CONSTANTS
  LX = 5
  LY = 6
  Xs = {0, 2}
  Dth = 6
  Kinds = {"gr"}
INVARIANTS PairSum0 PairNumber Symmetric Overlapping Invariant0 Shortest Partition
CHECK_DEADLOCK FALSE
