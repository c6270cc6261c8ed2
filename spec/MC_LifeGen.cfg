SPECIFICATION Spec
CONSTANTS
  NFiles <- NF
  MaxNow = 12
  MaxVer = 4
  K = 9
  Backdate = TRUE
INVARIANTS Report
CHECK_DEADLOCK FALSE
