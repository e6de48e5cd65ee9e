SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = TRUE
  QPad = 1
  Box = 4
  N = 3
  Dim = 1
  W = 4
  Leaves = {0,1,3}
  Ks = {0,1,2,3}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
CHECK_DEADLOCK FALSE
