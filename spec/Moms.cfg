SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  V = 2
  Place = "middle"
  Right = "clean"
  Count = "exact"
INVARIANTS Inside Permutation Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
