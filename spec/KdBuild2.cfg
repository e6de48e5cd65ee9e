SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 4
  Dim = 2
  W = 1
  Leaves = {1}
  Levels = {0, 2}
  PushMode = "locked"
  JoinMode = "all"
  BoundsMode = "right"
  Ties = TRUE
INVARIANTS Correct ScheduleFree

CHECK_DEADLOCK FALSE
