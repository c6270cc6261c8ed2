SPECIFICATION Spec
CONSTANTS
  Box <- Cube
  Rc = 2
  Out = 0
  Newtons = {TRUE,FALSE}
  Twos = {FALSE}
  Pers <- Both3
  NPos = 2
  Fine = FALSE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
