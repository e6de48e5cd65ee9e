SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  V = 2
  Place = "middle"
  Right = "clean"
  Count = "exact"
INVARIANTS Inside Permutation Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
