SPECIFICATION Spec
CONSTANTS
  Box <- Small
  Rc = 2
  Out = 0
  Newtons = {TRUE}
  Twos = {FALSE}
  Pers <- Both
  NPos = 2
  Fine = TRUE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
