SPECIFICATION Spec
CONSTANTS
  D = 2
  MaxN = 2
  Side = 2
  Leaves = {0, 1}
  BoxSides = {0}
INVARIANT Emit
CHECK_DEADLOCK FALSE
