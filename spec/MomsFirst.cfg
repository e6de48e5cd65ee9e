SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  V = 1
  Place = "first"
  Right = "clean"
  Count = "exact"
INVARIANTS Inside Permutation Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
