SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = TRUE
  QPad = 1
  Box = 0
  N = 4
  Dim = 2
  W = 1
  Leaves = {0,1}
  Ks = {0,2,3}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
CHECK_DEADLOCK FALSE
