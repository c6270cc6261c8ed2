SPECIFICATION Spec
CONSTANTS
  Areas = {"frames", "labels"}
  MaxN = 8
INVARIANTS Increasing InsideF NoOptions Blocks FirstIs LastIs Split Injective0 Idempotent Layout0 Through Distinct0 SomeOutput Private0 Number
CHECK_DEADLOCK FALSE
