SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxN = 5
  Side = 4
  Leaves = {0, 1, 2, 3}
  BoxSides = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
