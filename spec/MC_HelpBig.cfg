SPECIFICATION Spec
CONSTANTS
  Areas = {"fit", "cross", "max", "grid"}
  MaxN = 4
  MaxX = 5
  MaxY = 3
INVARIANTS Normal Collinear Least RootFound RootOnly RootMeans MaxFound MaxOnly Higher LinearN LinearD LinearBoth Logarithmic FromZero
CHECK_DEADLOCK FALSE
