SPECIFICATION Spec
CONSTANTS
  D = 3
  MaxN = 2
  Side = 1
  Leaves = {0, 1}
  BoxSides = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
