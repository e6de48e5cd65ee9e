SPECIFICATION Spec
CONSTANTS
  D = 2
  MaxN = 3
  Side = 2
  Leaves = {0, 1}
  BoxSides = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
