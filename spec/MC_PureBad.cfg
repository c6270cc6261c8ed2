SPECIFICATION Spec
CONSTANTS
  NObj = 2
  NGrid = 1
  NFrame = 1
  MaxHeap = 5
  K = 0
  Fresh = FALSE
INVARIANTS Mine Pure
CHECK_DEADLOCK FALSE
