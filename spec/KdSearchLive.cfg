SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "heap"
  Ties = TRUE
  QPad = 1
  Box = 2
  N = 3
  Dim = 1
  W = 2
  Leaves = {0,1}
  Ks = {0,2}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
PROPERTY Progress
CHECK_DEADLOCK FALSE
