SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxN = 3
  Side = 4
  Leaves = {0, 1, 2}
  BoxSides = {4, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
