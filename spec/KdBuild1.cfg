SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 4
  Dim = 1
  W = 2
  Leaves = {0, 1, 2}
  Levels = {0, 1, 2}
  PushMode = "locked"
  JoinMode = "all"
  BoundsMode = "right"
  Ties = TRUE
INVARIANTS Correct ScheduleFree

CHECK_DEADLOCK FALSE
