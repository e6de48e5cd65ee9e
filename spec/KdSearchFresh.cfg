SPECIFICATION Spec
CONSTANTS
  Seed = "dummy"
  Parent = "all"
  Prune = "lt"
  Early = "yes"
  Branch = "gt"
  Bound = "box"
  Images = "all"
  Counted = FALSE
  Keep = "fresh"
  Ties = TRUE
  QPad = 1
  Box = 3
  N = 3
  Dim = 1
  W = 3
  Leaves = {1}
  Ks = {2}
INVARIANTS Answer NothingLost NeverTwice LedgerFits
CHECK_DEADLOCK FALSE
