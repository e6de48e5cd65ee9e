SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 4
  Dim = 1
  W = 1
  Leaves = {1}
  Levels = {1}
  PushMode = "racy"
  JoinMode = "all"
  BoundsMode = "right"
  Ties = FALSE
INVARIANTS Correct ScheduleFree

CHECK_DEADLOCK FALSE
