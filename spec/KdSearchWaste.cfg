SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "none"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = TRUE
  Keep = "heap"
  Ties = FALSE
  QPad = 1
  Box = 0
  N = 5
  Dim = 1
  W = 4
  Leaves = {1,2}
  Ks = {0,1,2}
INVARIANTS Answer NothingLost Frugal
CHECK_DEADLOCK FALSE
