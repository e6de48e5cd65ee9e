SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = TRUE
  QPad = 1
  Box = 0
  N = 4
  Dim = 1
  W = 3
  Leaves = {0,1,2,4}
  Ks = {0,1,2,3,4,5}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
CHECK_DEADLOCK FALSE
