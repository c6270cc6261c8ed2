SPECIFICATION Spec
CONSTANTS
  T = 36
  LX = 4
  LY = 6
  NMax = 1
  X1 = {0}
  Masses <- Uneven
  Moves <- Two
INVARIANTS LagsOk SelfOne SelfBound SelfEven SelfSum SelfImage SelfShift SelfDrift CollSq CollPos CollBound CollImage CollEven CollSum CollSym CollSelf Form
CHECK_DEADLOCK FALSE
