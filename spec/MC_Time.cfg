SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxBlk = 3
  MaxGap = 2
INVARIANTS SkipBounds OriginsStart Aligned AlignedStatic OneIsOne AllIsAll NumIsAbout FracIsSubset
 OneEntryPerLag LagsReal LagsComplete LagsOfBlocks Matched
 PairsInside PairsLag NotEmpty Once NothingLeft FromFirst StaticAtZero
CHECK_DEADLOCK FALSE
