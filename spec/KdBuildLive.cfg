SPECIFICATION Spec
CONSTANTS
  ListOf <- SetToSeq
  N = 3
  Dim = 2
  W = 1
  Leaves = {0, 1}
  Levels = {0, 1, 3}
  PushMode = "locked"
  JoinMode = "all"
  BoundsMode = "right"
  Ties = FALSE
INVARIANTS Correct ScheduleFree
PROPERTY Terminates
CHECK_DEADLOCK FALSE
