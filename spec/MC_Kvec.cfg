SPECIFICATION Spec
CONSTANTS
  T = 12
  ND = 2
  Ls = {6, 12}
  Norms = {0, 2, 3}
  Dks <- HalfTwo
INVARIANTS Sorted0 Positive NonEmpty Disjoint Even Isotropic Inside All Keep Smallest
CHECK_DEADLOCK FALSE
