SPECIFICATION Spec
CONSTANTS
  NFiles <- NF
  MaxNow = 3
  MaxVer = 2
  K = 0
  Backdate = TRUE
INVARIANTS Fresh FreshDo Whole
PROPERTIES NoNeedless Private
CHECK_DEADLOCK FALSE
