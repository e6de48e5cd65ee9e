SPECIFICATION Spec
CONSTANTS
  Trees = {1,2}
  Workers = {1,2,3}
  Rows = 3
  MaxAnswers = 2
  Err = "frees"
  Build = "frees"
  End = "all"
INVARIANTS AtRest Bounded
CHECK_DEADLOCK FALSE
