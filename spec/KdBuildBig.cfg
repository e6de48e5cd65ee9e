SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 7
  Dim = 1
  W = 1
  Leaves = {1}
  Levels = {2}
  PushMode = "locked"
  JoinMode = "all"
  BoundsMode = "right"
  Ties = FALSE
INVARIANTS Correct ScheduleFree

CHECK_DEADLOCK FALSE
