SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 3
  Dim = 1
  W = 1
  Leaves = {1}
  Levels = {0}
  PushMode = "locked"
  JoinMode = "all"
  BoundsMode = "swapped"
  Ties = FALSE
INVARIANTS Correct ScheduleFree

CHECK_DEADLOCK FALSE
