SPECIFICATION Spec
CONSTANTS
  NObj = 3
  NGrid = 2
  NFrame = 1
  MaxHeap = 5
  K = 0
  Fresh = TRUE
INVARIANTS Mine Pure Still
CHECK_DEADLOCK FALSE
