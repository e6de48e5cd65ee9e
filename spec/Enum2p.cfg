SPECIFICATION Spec
CONSTANTS
  D = 2
  MaxN = 2
  Side = 2
  Leaves = {1}
  BoxSides = {2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
