SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = FALSE
  QPad = 1
  Box = 3
  N = 2
  Dim = 2
  W = 3
  Leaves = {0,1,2}
  Ks = {0,1,2}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
CHECK_DEADLOCK FALSE
