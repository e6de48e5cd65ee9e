SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  V = 2
  Place = "middle"
  Right = "clean"
  Count = "under"
INVARIANTS Inside Permutation Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
