SPECIFICATION Spec
CONSTANTS
  NObj = 4
  NGrid = 2
  NFrame = 2
  MaxHeap = 50
  K = 14
  Fresh = TRUE
INVARIANTS Report
CHECK_DEADLOCK FALSE
