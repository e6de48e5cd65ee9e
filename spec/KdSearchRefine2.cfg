SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = FALSE
  QPad = 1
  Box = 0
  N = 3
  Dim = 2
  W = 2
  Leaves = {0,1,2}
  Ks = {0,1,2,3}
PROPERTY Refines
CHECK_DEADLOCK FALSE
