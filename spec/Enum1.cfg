SPECIFICATION Spec
CONSTANTS
  D = 1
  MaxN = 4
  Side = 3
  Leaves = {0, 1, 2}
  BoxSides = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
