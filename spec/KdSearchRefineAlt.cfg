SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "le"
  Early = "no"
  Branch = "ge"
  Bound = "plane"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = TRUE
  QPad = 1
  Box = 0
  N = 3
  Dim = 1
  W = 3
  Leaves = {0,1,2,4}
  Ks = {0,1,2,3,4,5}
PROPERTY Refines
CHECK_DEADLOCK FALSE
