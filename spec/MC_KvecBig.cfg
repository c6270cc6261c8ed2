SPECIFICATION Spec
CONSTANTS
  T = 12
  ND = 2
  Ls = {4, 6, 12}
  Norms = {0, 1, 2, 3, 5, 7}
  Dks <- HalfTwo
INVARIANTS Sorted0 Positive NonEmpty Disjoint Even Isotropic Inside All Keep Smallest
CHECK_DEADLOCK FALSE
