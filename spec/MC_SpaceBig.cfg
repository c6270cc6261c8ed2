SPECIFICATION Spec
CONSTANTS
  L = 5
  NF = 3
  Step1 = 1
  DriftMax = 1
  Img = {0, 1}
  Img2 <- BackAndForth
  U0 = {0, 1}
  Masses <- AnyMass
INVARIANTS UnfoldWrap UnfoldIdem Images DriftFree CmAtRest FullCm SumRule StaticValue Chi4 Chi4Moment
CHECK_DEADLOCK FALSE
