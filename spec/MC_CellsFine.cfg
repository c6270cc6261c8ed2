SPECIFICATION Spec
CONSTANTS
  Box <- Sides2
  Rc = 2
  Out = 1
  Newtons = {TRUE,FALSE}
  Twos = {TRUE,FALSE}
  Pers <- Mixed
  NPos = 2
  Fine = TRUE
INVARIANTS Complete
CHECK_DEADLOCK FALSE
