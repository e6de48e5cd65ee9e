SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = TRUE
  Keep = "heap"
  Ties = FALSE
  QPad = 1
  Box = 3
  N = 3
  Dim = 2
  W = 2
  Leaves = {1,2}
  Ks = {0,1,2}
INVARIANTS Answer NothingLost Frugal
CHECK_DEADLOCK FALSE
